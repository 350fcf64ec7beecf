---- MODULE P03 ----
EXTENDS Accel, Judge
====
