---- MODULE P29 ----
EXTENDS Camera, Judge
====
