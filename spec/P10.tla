-------------------------------- MODULE P10 --------------------------------
EXTENDS Film, Judge
=============================================================================
