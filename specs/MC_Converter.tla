------------------------ MODULE MC_Converter ------------------------
EXTENDS Converter
Lists == {<<>>, << <<7>> >>, << <<>>, <<8, 9>> >>}
Bare == {<<>>}
Static == {<<0, -1>>}
NTimes == {<<0, -1>>, <<1, 5>>}
ETimes == {<<0, -1>>, <<1, 3>>, <<2, 5>>, <<1, -1>>}
=====================================================================
