---- MODULE P27 ----
EXTENDS Sampling, Judge
====
