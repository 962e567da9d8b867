------------------------- MODULE MC_TextReader -------------------------
EXTENDS TextReader
SmallFiles == {<<>>, <<97>>, <<10>>, <<97,10>>, <<10,98>>, <<97,98,10>>, <<97,10,98>>, <<97,10,10,98>>}
AllFiles == UNION {[1..n -> {97, 10}] : n \in 0..4}
=======================================================================
