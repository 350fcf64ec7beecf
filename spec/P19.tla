---- MODULE P19 ----
EXTENDS Loop, Judge
====
