---- MODULE P30 ----
EXTENDS Filters, Judge
====
