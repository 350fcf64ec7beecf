-------------------------------- MODULE P07 --------------------------------
EXTENDS Film, Judge
=============================================================================
