---- MODULE P32 ----
EXTENDS Volume, Judge
====
