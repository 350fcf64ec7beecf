---- MODULE P24 ----
EXTENDS Prims, Judge
====
