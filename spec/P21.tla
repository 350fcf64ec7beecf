---- MODULE P21 ----
EXTENDS Scatter, Judge
====
