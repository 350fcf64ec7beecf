---- MODULE P20 ----
EXTENDS Scatter, Judge
====
