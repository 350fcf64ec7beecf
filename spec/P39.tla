---- MODULE P39 ----
EXTENDS RayTrace, Judge
====
