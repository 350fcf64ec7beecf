---- MODULE P04 ----
EXTENDS Accel, Judge
====
