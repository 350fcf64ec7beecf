---- MODULE P18 ----
EXTENDS Shapes, Judge
====
