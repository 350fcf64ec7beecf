-------------------------------- MODULE Render --------------------------------
(* The render loop as a state machine over the calls it makes on sampler,    *)
(* camera, integrators and film.  A recorded run is a sequence of events:    *)
(*  pre(which)  gen(samples | exhausted)  ray(sample)  li(sample)            *)
(*  report(accepted)  add(sample, colour)  write                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat
Y(c) == (("0.212671" (.) c[1]) (+) ("0.715160" (.) c[2])) (+) ("0.072169" (.) c[3])
Finite(c) == \A k \in 1..3 : RIsNum(c[k])
Black == <<"0", "0", "0">>
Same3(c, d) == \A k \in 1..3 : NearRel(c[k], d[k], "1e-11")
\* what the film may be given for a sample whose ray has weight w and whose radiance is c
White == <<"1", "1", "1">>
Recorded(w, c) ==
  IF ~Finite(c) \/ w \doteq 0 THEN {Black}
  ELSE LET v == [k \in 1..3 |-> w (.) c[k]]
           y == Y(v)
       IN IF y \prec "-1.01e-5" THEN {Black} ELSE IF y \prec 0 THEN {Black, v} ELSE {v}
\* radiance of plan entry p: what the surface integrator says on a hit, the lights' emission otherwise
RECURSIVE SumC(_, _)
SumC(cs, n) == IF n = 0 THEN Black ELSE LET s == SumC(cs, n - 1) IN [k \in 1..3 |-> s[k] (+) cs[n][k]]
Radiance(r, p) == LET s == IF p.hit THEN p.rad ELSE SumC(p.back, Len(p.back))
                  IN IF r.vol THEN [k \in 1..3 |-> (p.tr[k] (.) s[k]) (+) p.vol[k]] ELSE s
Plan(r, f) == {k \in 1..Len(r.plan) : r.plan[k].f = f}

\* ---- the machine ----
Start == [pre |-> {}, batch |-> <<>>, accepted |-> "none", added |-> <<>>, over |-> FALSE, writes |-> 0, begun |-> FALSE, rays |-> <<>>, bad |-> {}]
Flag(s, c) == [s EXCEPT !.bad = @ \cup {c}]
CheckBatch(s) == \* leaving a batch: everything accepted must have been added once
  LET n == Len(s.batch)
      times(f) == Cardinality({k \in 1..Len(s.added) : s.added[k] = f})
  IN IF n = 0 THEN s
     ELSE IF s.accepted = "no" THEN (IF s.added # <<>> THEN Flag(s, "rejected-batch-contributed") ELSE s)
     ELSE IF \E k \in 1..n : times(s.batch[k]) = 0 THEN Flag(s, "sample-not-added")
     ELSE IF \E k \in 1..n : times(s.batch[k]) > 1 THEN Flag(s, "sample-added-twice") ELSE s
Step(r, s, e) ==
  CASE e.ev = "pre" -> LET t == [s EXCEPT !.pre = @ \cup {e.who}] IN IF s.begun THEN Flag(t, "preprocess-after-sampling") ELSE t
    [] e.ev = "gen" ->
         LET t == CheckBatch(s)
             u == [t EXCEPT !.begun = TRUE, !.batch = e.samples, !.accepted = "none", !.added = <<>>, !.rays = <<>>, !.over = ~e.more]
         IN IF s.over THEN Flag(u, "sampled-after-exhaustion")
            ELSE IF ~s.begun /\ ~r.vis /\ s.pre # (IF r.vol THEN {"surf", "vol"} ELSE {"surf"}) THEN Flag(u, "preprocess-before-sampling") ELSE u
    [] e.ev = "ray" -> LET t == [s EXCEPT !.rays = Append(@, e.f)]
                       IN IF \E k \in 1..Len(s.batch) : s.batch[k] = e.f THEN t ELSE Flag(t, "camera-ray-for-unknown-sample")
    [] e.ev = "li" -> IF Plan(r, e.f) = {} \/ ~(\E k \in 1..Len(s.rays) : s.rays[k] = e.f) THEN Flag(s, "radiance-along-other-ray")
                      ELSE IF ~(\A k \in 1..3 : NearRel(e.dx[k], IF k = 1 THEN RSqrt(1 (/) r.spp) ELSE "0", "1e-9")
                                /\ NearRel(e.dy[k], IF k = 2 THEN RSqrt(1 (/) r.spp) ELSE "0", "1e-9")) THEN Flag(s, "footprint-scaled-to-sample-spacing")
                      ELSE s
    [] e.ev = "report" -> [s EXCEPT !.accepted = IF e.ok THEN "yes" ELSE "no"]
    [] e.ev = "add" ->
         LET t == [s EXCEPT !.added = Append(@, e.f)]
             P == Plan(r, e.f)
         IN IF s.over \/ s.accepted = "no" THEN Flag(t, "added-outside-its-batch")
            ELSE IF P = {} \/ ~(\E k \in 1..Len(s.batch) : s.batch[k] = e.f) THEN Flag(t, "unknown-sample-added")
            ELSE LET p == r.plan[CHOOSE k \in P : TRUE]
                 IN IF \E c \in (IF r.vis THEN {IF p.w \succ 0 /\ p.hit THEN White ELSE Black} ELSE Recorded(p.w, Radiance(r, p))) : Same3(e.c, c) THEN t
                    ELSE Flag(t, IF ~Finite(e.c) THEN "non-finite-colour-recorded" ELSE "recorded-colour")
    [] e.ev = "write" -> LET t == [s EXCEPT !.writes = @ + 1] IN IF ~s.over THEN Flag(t, "image-written-before-the-end") ELSE t
RECURSIVE Run(_, _, _, _), Chunks(_, _, _)
Run(r, s, k, hi) == IF k > hi THEN s ELSE Run(r, Step(r, s, r.ev[k]), k + 1, hi)
Chunks(r, s, k) == \* twelve events at a time, so that long runs do not nest deeply
  IF k > Len(r.ev) THEN s ELSE Chunks(r, TLCEval(Run(r, s, k, IF k + 11 < Len(r.ev) THEN k + 11 ELSE Len(r.ev))), k + 12)
LoopFails(r) ==
  IF r.err # "" THEN {"render-stopped"} ELSE
  LET s == Chunks(r, Start, 1)
  IN s.bad \cup (IF s.over THEN {} ELSE {"stopped-before-exhaustion"}) \cup (IF r.vis \/ s.writes = 1 THEN {} ELSE {"image-written-once"})
\* SamplerRenderer's own dispatch of a radiance query
DispatchFails(r) == IF r.err # "" THEN {"dispatch-raised"} ELSE
  IF r.q = "transmittance" THEN (IF Same3(r.got, IF r.vol THEN r.p.tr ELSE <<"1", "1", "1">>) THEN {} ELSE {"transmittance-dispatch"})
  ELSE IF Same3(r.got, Radiance(r, r.p)) THEN {} ELSE {"radiance-dispatch"}
P13Fails(r) == CASE r.op = "loop" -> LoopFails(r) [] r.op = "dispatch" -> DispatchFails(r) [] OTHER -> {}
===============================================================================
