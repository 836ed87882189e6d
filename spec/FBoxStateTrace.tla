--------------------------- MODULE FBoxStateTrace ---------------------------
(* Histories of a real Box against FBoxState: each event is one command, whether it was
   accepted, and the complete projection of the box afterwards. *)
EXTENDS TraceBase
VARIABLES ep, line, broken, hb
vars == <<ep, line, broken, hb>>
M == INSTANCE FBoxState WITH Lens <- {}, Tilts <- {}, Depth <- 0, h <- <<>>

Obs(s, o) ==
  If(o.d = s.d /\ o.is2D = (s.d = 2), "dimensions") \cup If(o.L = s.L /\ o.Lxyz = s.L, "L")
  \cup If(o.t = s.t, "tilt") \cup If(o.per = s.per /\ o.perxyz = s.per, "periodic")
  \cup If(o.vol = M!Volume(s), "volume") \cup If(o.m4 = M!Matrix4(s), "matrix")
  \cup If(o.v4 = << M!Col(M!Matrix4(s), 1), M!Col(M!Matrix4(s), 2), M!Col(M!Matrix4(s), 3)>>, "lattice vectors")
  \cup If(o.params = <<s.L[1], s.L[2], s.L[3], s.t[1], s.t[2], s.t[3]>>, "to_box_params")
  \cup If(o.dict = <<s.L[1], s.L[2], s.L[3], s.t[1], s.t[2], s.t[3], s.d>>, "to_dict")
  \cup If(o.cubic = M!Cubic(s), "cubic")
  \cup (IF M!Degenerate(s) THEN {} ELSE IF Len(o.a8) # Len(o.f) \/ Len(o.f2) # Len(o.f) THEN {"degenerate lengths"} ELSE
       If(\A i \in 1..3 : o.linv[i] * s.L[i] = IF s.d = 2 /\ i = 3 THEN 0 ELSE 64, "L_inv")
       \cup If(s.d = 2 => o.linv[3] = 0, "L_inv")
       \cup If(\A k \in 1..Len(o.f) : o.a8[k] = M!Abs8(s, o.f[k]), "coordinate transform")
       \cup If(\A k \in 1..Len(o.f) : s.d = 3 => o.f2[k] = o.f[k], "fractional transform")
       \cup If(o.eqself /\ o.eqtwin, "equal boxes compare equal")
       \cup If(~o.eqL /\ ~o.eqt /\ ~o.eqper /\ ~o.eqother, "different boxes compare equal")
       \cup If(o.eqd = FALSE, "2D and 3D compare equal")
       \cup If(o.fresh, "transforms differ from a fresh box")
       \cup If(o.reprok, "repr"))

Verdict(s, e) ==
  LET r == M!Apply(s, e.c) IN
  If(e.ok = r.ok, IF r.ok THEN "valid command rejected" ELSE "invalid command accepted")
  \cup If(r.ok => e.srcsame, "source box modified")
  \cup (IF e.ok = r.ok THEN Obs(r.s, e.o) ELSE {})

Init == /\ ep \in 1..Len(T) /\ line = 0 /\ broken = {}
        /\ hb = M!Mk(<<4,4,4>>, <<0,0,0>>, 3, M!AllPer)
Next == /\ line < Len(T[ep].ev)
        /\ line' = line + 1
        /\ LET e == T[ep].ev[line + 1] IN
             /\ broken' = Verdict(hb, e)
             /\ hb' = M!Apply(hb, e.c).s
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken, hb |-> hb]
=============================================================================
