---- MODULE P16 ----
EXTENDS Geometry, Judge
====
