SPECIFICATION Spec
INVARIANTS Normalised Agrees
CONSTANTS
 Names = {"iso", "rayleigh", "hazy", "murky", "hg", "schlick"}
 Gs = {"0", "1/2", "-1/2", "2/5"}
 N = 96
CHECK_DEADLOCK FALSE
