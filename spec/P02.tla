---- MODULE P02 ----
EXTENDS Accel, Judge
====
