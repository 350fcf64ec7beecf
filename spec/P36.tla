---- MODULE P36 ----
EXTENDS Geometry, Judge
====
