---- MODULE P28 ----
EXTENDS Sampling, Judge
====
