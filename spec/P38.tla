---- MODULE P38 ----
EXTENDS Shapes, Judge
====
