---- MODULE P35 ----
EXTENDS InterfaceJudge, Judge
====
