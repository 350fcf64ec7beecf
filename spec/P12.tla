---- MODULE P12 ----
EXTENDS Sampler, Judge
====
