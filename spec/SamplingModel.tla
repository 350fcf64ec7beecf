---------------------------- MODULE SamplingModel ----------------------------
(* All small tables and random numbers: the specification's inversion lands   *)
(* where the cumulative probability is u, outside zero bins.  Every state is  *)
(* also printed as a scenario for the driver.                                 *)
EXTENDS Sampling, Json
CONSTANTS MaxLen, Vals, Den
VARIABLES f, k
vars == <<f, k>>
Tables == UNION {[1..n -> Vals] : n \in 1..MaxLen}
Init == f \in {t \in Tables : \E j \in DOMAIN t : t[j] # 0} /\ k = 0
Next == k < Den - 1 /\ k' = k + 1 /\ f' = f
Spec == Init /\ [][Next]_vars
U == k (/) Den
Inverts == Near(Cum(f, Inv(f, U)), U, "1e-30") /\ f[InvBin(f, U)] # 0
Ordered == k = 0 \/ Inv(f, (k - 1) (/) Den) \prec Inv(f, U)
Emit == PrintT(<<"SCEN", ToJson([f |-> f, k |-> k, den |-> Den])>>)
=============================================================================
