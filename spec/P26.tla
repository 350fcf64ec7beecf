---- MODULE P26 ----
EXTENDS Integrator, Judge
====
