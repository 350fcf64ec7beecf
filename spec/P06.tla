---- MODULE P06 ----
EXTENDS Prims, Judge
====
