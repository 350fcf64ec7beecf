---- MODULE P33 ----
EXTENDS Texture, Judge
====
