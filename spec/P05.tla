---- MODULE P05 ----
EXTENDS Prims, Judge
====
