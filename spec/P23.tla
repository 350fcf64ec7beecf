---- MODULE P23 ----
EXTENDS Light, Judge
====
