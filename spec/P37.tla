---- MODULE P37 ----
EXTENDS Shapes, Judge
====
