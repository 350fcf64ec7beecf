---- MODULE P40 ----
EXTENDS Util, Judge
====
