---- MODULE P17 ----
EXTENDS Shapes, Judge
====
