---- MODULE P34 ----
EXTENDS Material, Judge
====
