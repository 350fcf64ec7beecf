------------------------------ MODULE Interface ------------------------------
(* The scene description (P35): a state machine of calls.  Transforms are an   *)
(* abstract group (matrices when judging, words when exploring); attributes    *)
(* are one value standing for all of them.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS TMul(_, _), TInv(_), TElem(_), TId
Fresh == [on |-> TRUE, world |-> FALSE, ts |-> <<TId, TId>>, tag |-> 0, blocks |-> <<>>, cs |-> <<>>,
          opt |-> <<>>, cam |-> <<TId, TId>>]
Off == [Fresh EXCEPT !.on = FALSE]
\* named systems and options are functions from names; an absent name has none
Put(f, n, v) == [x \in (DOMAIN f \cup {n}) |-> IF x = n THEN v ELSE f[x]]
Map(ts, Op(_)) == [k \in 1..2 |-> Op(ts[k])]
Top(st) == st.blocks[Len(st.blocks)]
Pop(st) == [st EXCEPT !.blocks = SubSeq(@, 1, Len(@) - 1)]
Ok(st) == [st |-> st, out |-> "ok", report |-> FALSE]
Reject(st) == [st |-> st, out |-> "reject", report |-> FALSE]
Report(st) == [st |-> st, out |-> "ok", report |-> TRUE]
Step(st, c) ==
  CASE c.c = "init" -> IF st.on THEN Reject(st) ELSE Ok(Fresh)
    [] c.c = "clean" -> Ok(Off)
    [] ~st.on -> Reject(st)
    [] c.c = "identity" -> Ok([st EXCEPT !.ts = <<TId, TId>>])
    [] c.c = "apply" -> Ok([st EXCEPT !.ts = Map(@, LAMBDA t : TMul(t, TElem(c.e)))])
    [] c.c = "look" -> Ok([st EXCEPT !.ts = Map(@, LAMBDA t : TMul(t, TInv(TElem(c.e))))])
    [] c.c = "set" -> Ok([st EXCEPT !.ts = <<TElem(c.e), TElem(c.e)>>])
    [] c.c = "name" -> Ok([st EXCEPT !.cs = Put(@, c.n, st.ts)])
    [] c.c = "recall" -> IF c.n \in DOMAIN st.cs THEN Ok([st EXCEPT !.ts = st.cs[c.n]]) ELSE Reject(st)
    [] c.c = "camera" -> LET inv == Map(st.ts, LAMBDA t : TInv(t))
                         IN Ok([st EXCEPT !.cam = inv, !.cs = Put(@, "camera", inv), !.opt = Put(@, "camera", c.v)])
    [] c.c = "option" -> Ok([st EXCEPT !.opt = Put(@, c.n, c.v)])
    [] c.c = "attr" -> Ok([st EXCEPT !.tag = c.v])
    [] c.c = "world" -> Ok([st EXCEPT !.world = TRUE, !.ts = <<TId, TId>>, !.cs = Put(@, "world", <<TId, TId>>)])
    [] c.c = "abegin" -> Ok([st EXCEPT !.blocks = Append(@, [k |-> "a", ts |-> st.ts, tag |-> st.tag])])
    [] c.c = "tbegin" -> Ok([st EXCEPT !.blocks = Append(@, [k |-> "t", ts |-> st.ts, tag |-> 0])])
    [] c.c = "aend" -> IF st.blocks = <<>> \/ Top(st).k # "a" THEN Report(st) ELSE Ok([Pop(st) EXCEPT !.ts = Top(st).ts, !.tag = Top(st).tag])
    [] c.c = "tend" -> IF st.blocks = <<>> \/ Top(st).k # "t" THEN Report(st) ELSE Ok([Pop(st) EXCEPT !.ts = Top(st).ts])
=============================================================================
