---- MODULE P15 ----
EXTENDS Geometry, Judge
====
