---- MODULE P11 ----
EXTENDS Sampler, Judge
====
