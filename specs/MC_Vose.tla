---- MODULE MC_Vose ----
EXTENDS Vose
====
