---- MODULE P13 ----
EXTENDS Render, Judge
====
