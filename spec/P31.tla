---- MODULE P31 ----
EXTENDS Spectra, Judge
====
