---- MODULE P01 ----
EXTENDS Accel, Judge
====
