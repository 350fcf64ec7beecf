------------------------------- MODULE Camera -------------------------------
(* Cameras (P29).  r.m is the camera-to-world matrix at the time of the ray,  *)
(* r.win = <<x0, x1, y0, y1>> the screen window, r.res the film resolution,   *)
(* r.px, r.py the film position, r.lens the point of the unit lens disk.      *)
EXTENDS Lin
Deg(x) == (x (.) PI) (/) 180
Screen(r, px, py) == <<r.win[1] (+) ((px (/) r.res[1]) (.) (r.win[2] (-) r.win[1])), r.win[4] (-) ((py (/) r.res[2]) (.) (r.win[4] (-) r.win[3]))>>
\* the ray through the film position before depth of field, in camera space
Pin(r, px, py) ==
  LET s == Screen(r, px, py) IN
  CASE r.kind = "persp" -> LET t == RTan(Deg(r.fov) (/) 2) IN [o |-> Zero3, d |-> Unit(<<s[1] (.) t, s[2] (.) t, "1">>)]
    [] r.kind = "ortho" -> [o |-> <<s[1], s[2], "0">>, d |-> <<"0", "0", "1">>]
    [] r.kind = "env" -> LET th == PI (.) (py (/) r.res[2]) ph == (2 (.) PI) (.) (px (/) r.res[1])
                         IN [o |-> Zero3, d |-> <<RSin(th) (.) RCos(ph), RCos(th), RSin(th) (.) RSin(ph)>>]
    [] r.kind = "pinhole" -> [o |-> <<px, py, "0">>, d |-> Unit(<<RNeg(px), RNeg(py), r.focal>>)]
Lensed(r) == r.kind \in {"persp", "ortho"} /\ r.lensr \succ 0
\* where rays of one film position meet
Focus(r, px, py) == LET q == Pin(r, px, py) IN VAdd(q.o, VMul(r.focal (/) q.d[3], q.d))
Cam(r, px, py) == IF ~Lensed(r) THEN Pin(r, px, py)
                  ELSE LET o == <<r.lensr (.) r.lens[1], r.lensr (.) r.lens[2], "0">> IN [o |-> o, d |-> Unit(VSub(Focus(r, px, py), o))]
World(r, px, py) == LET c == Cam(r, px, py) IN [o |-> MPt(r.m, c.o), d |-> MVec(r.m, c.d)]
TolO(r) == "1e-8" (.) RMax(1, MaxAbs3(r.ray.o))
D8 == "1e-8"
MainFails(r, q) ==
  LET w == World(r, r.px, r.py) IN
  (IF ~VNear(q.o, w.o, TolO(r)) THEN {"starts-at-the-camera"} ELSE {})
  \cup (IF ~VNear(q.d, w.d, D8) THEN {"passes-through-the-film-position"} ELSE {})
  \cup (IF ~IsUnit(q.d, D8) THEN {"unit-direction"} ELSE {})
  \cup (IF q.time # r.time THEN {"time-of-the-sample"} ELSE {})
  \cup (IF ~(q.mint \doteq 0) \/ q.maxt # "inf" \/ q.depth # 0 THEN {"whole-ray"} ELSE {})
  \cup (IF Lensed(r) THEN
          \* the world ray passes through the focus of its film position
          LET f == MPt(r.m, Focus(r, r.px, r.py)) v == VSub(f, q.o)
          IN IF ~VNear(Cross(Unit(v), q.d), Zero3, D8) THEN {"meets-on-the-focal-plane"} ELSE {}
        ELSE {})
DiffFails(r, q) ==
  LET x == World(r, r.px (+) 1, r.py) y == World(r, r.px, r.py (+) 1) IN
  (IF ~q.has THEN {"differentials-present"} ELSE {})
  \cup (IF ~VNear(q.rxo, x.o, TolO(r)) \/ ~VNear(q.ryo, y.o, TolO(r)) THEN {"auxiliary-origins"} ELSE {})
  \cup (IF ~VNear(q.rxd, x.d, D8) \/ ~VNear(q.ryd, y.d, D8) THEN {"auxiliary-directions"} ELSE {})
P29Fails(r) ==
  IF r.err # "" THEN {"camera-raised"} ELSE
  MainFails(r, r.ray) \cup MainFails(r, r.rd) \cup DiffFails(r, r.rd)
  \cup (IF ~(r.wt \doteq 1) \/ ~(r.wtd \doteq 1) THEN {"weight-one"} ELSE {})
  \cup (IF ~r.keep THEN {"sample-kept"} ELSE {})
  \cup (IF ~r.again THEN {"same-sample-same-ray"} ELSE {})
==============================================================================
