---- MODULE P25 ----
EXTENDS Integrator, Judge
====
