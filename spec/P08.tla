-------------------------------- MODULE P08 --------------------------------
EXTENDS Film, Judge
=============================================================================
