---------------------------- MODULE FSystemTrace ----------------------------
(* Recorded conversions of the real NeighborQuery.from_system against FSystem, and computes
   given the same system in different forms.  Events:
     give/pass   a presentation r converted by class c with dimensions argument a
     again       the object held converted once more
     bad/conflict  must be rejected
     compute     the results of a class for one form, against those for (box, points)       *)
EXTENDS TraceBase
VARIABLES ep, line, broken, acc
vars == <<ep, line, broken, acc>>
M == INSTANCE FSystem WITH Systems <- {}, Classes <- {}, Depth <- 0, Faults <- {}, Gen <- FALSE,
                           sys <- <<>>, obj <- acc, log <- <<>>, fault <- "none"
B(b, t) == IF b THEN {} ELSE {t}
Flat(s) == IF s.d = 2 THEN [s EXCEPT !.L = <<@[1], @[2], 0>>, !.t = <<@[1], 0, 0>>] ELSE s
\* periodicity across a flat box's missing direction means nothing
Per(s) == IF s.d = 2 THEN <<s.per[1], s.per[2]>> ELSE s.per
Agree(got, want) ==
  B(got.d = want.d, "dimensionality") \cup B(Flat(got).L = Flat(want).L, "box lengths")
  \cup B(Flat(got).t = Flat(want).t, "tilt factors") \cup B(Per(got) = Per(want), "periodicity")
  \cup B(got.P = want.P, "points")
Want(st, e) ==
  CASE e.op = "give" -> M!Decode(e.r, e.a)
    [] OTHER -> st.sys
Was(st, e) == IF e.op = "give" THEN M!HeldClass(e.r.form) ELSE IF e.op = "again" THEN st.cls ELSE ""
Verdict(st, e) ==
  CASE e.op \in {"give", "pass", "again"} ->
         IF ~e.ok THEN {"valid system rejected: " \o e.err}
         ELSE LET was == Was(st, e)
                  keep == was # "" /\ M!Is(was, e.c) IN
              Agree(e.sys, Want(st, e))
              \cup B(e.isa, "not of the class asked for")
              \cup B(keep => e.identical, "a NeighborQuery is not passed through")
              \cup B(e.kept, "the object presented was modified")
    [] e.op = "conflict" -> B(M!Conflict(e.r, e.a) /\ ~e.ok, "conflicting dimensions accepted")
    [] e.op = "bad" -> B(~e.ok, "not a system, yet accepted")
    [] e.op = "compute" -> B(e.ok, "compute rejected a form: " \o e.err)
                           \cup B(~e.ok \/ e.same, "results depend on the form of the system")
After(st, e) ==
  IF e.op \in {"give", "pass", "again"} /\ e.ok
  THEN [cls |-> IF Was(st, e) # "" /\ M!Is(Was(st, e), e.c) THEN Was(st, e) ELSE M!Made(e.c),
        sys |-> IF e.op = "give" THEN Want(st, e) ELSE st.sys]
  ELSE st
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {} /\ acc = M!None
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ LET e == T[ep].ev[line + 1] IN broken' = TLCEval(Verdict(acc, e)) /\ acc' = TLCEval(After(acc, e))
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
