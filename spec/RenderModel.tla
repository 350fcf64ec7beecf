----------------------------- MODULE RenderModel -----------------------------
(* Design of the render loop: batches of samples pass through camera,        *)
(* radiance, report and film.  Explored exhaustively; every complete run is  *)
(* also emitted as a scenario for the real renderer.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxBatch, Spp
Kinds == {"fin", "nan", "inf", "mixed", "neg", "zero"}
VARIABLES phase, plan, k, film, wrote, hist
vars == <<phase, plan, k, film, wrote, hist>>
Entry == [kind : Kinds, hit : BOOLEAN, w : {0, 1, 2}]
Useful(e) == e.kind = "fin" \/ (e.hit /\ e.w # 0) \/ (e.kind = "nan" /\ e.w = 0)
Init == /\ phase = "init" /\ plan = <<>> /\ k = 0 /\ film = {} /\ wrote = 0 /\ hist = <<>>
Preprocess == phase = "init" /\ phase' = "loop" /\ UNCHANGED <<plan, k, film, wrote, hist>>
Generate == /\ phase = "loop" /\ Len(hist) < MaxBatch
            /\ \E b \in [1..Spp -> {e \in Entry : Useful(e)}], ok \in BOOLEAN :
                 plan' = b /\ hist' = Append(hist, [batch |-> b, ok |-> ok])
            /\ phase' = "trace" /\ k' = 1 /\ UNCHANGED <<film, wrote>>
Trace1 == /\ phase = "trace" /\ k <= Spp /\ k' = k + 1 /\ UNCHANGED <<phase, plan, film, wrote, hist>>
Report == /\ phase = "trace" /\ k > Spp
          /\ phase' = "loop"
          /\ film' = IF hist[Len(hist)].ok THEN film \cup {<<Len(hist), s>> : s \in 1..Spp} ELSE film
          /\ UNCHANGED <<plan, k, wrote, hist>>
Exhaust == phase = "loop" /\ Len(hist) > 0 /\ phase' = "over" /\ UNCHANGED <<plan, k, film, wrote, hist>>
Write == /\ phase = "over" /\ wrote = 0 /\ wrote' = 1 /\ UNCHANGED <<phase, plan, k, film, hist>>
         /\ PrintT(<<"SCEN", ToJson([batches |-> hist])>>)
Next == Preprocess \/ Generate \/ Trace1 \/ Report \/ Exhaust \/ Write
OnlyAccepted == \A f \in film : hist[f[1]].ok
AllAccepted == phase \in {"loop", "over"} => film = {<<b, s>> \in (1..Len(hist)) \X (1..Spp) : hist[b].ok}
WriteLast == wrote = 1 => phase = "over"
==============================================================================
