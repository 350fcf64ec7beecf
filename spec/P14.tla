---- MODULE P14 ----
EXTENDS Geometry, Judge
====
