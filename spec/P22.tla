---- MODULE P22 ----
EXTENDS Scatter, Judge
====
