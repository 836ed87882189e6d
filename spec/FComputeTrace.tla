---------------------------- MODULE FComputeTrace ----------------------------
(* Recorded lives of real analysis objects.  PROP selects the clauses judged.

   Events: c (command), exc (exception of the call, "" if accepted), sbad (settings that do
   not read back as given), touched (inputs the call changed), r (for read: one record per
   result n: exc, eq = the inputs whose fresh-object result this value equals, in a separate
   process, again = a second reading
   gives the same value, kept = same value as when last read since this object's last call), changed (for held: held results
   whose value is no longer the one read). *)
EXTENDS TraceBase
VARIABLES ep, line, broken, acc
vars == <<ep, line, broken, acc>>
M == INSTANCE FCompute
PROP == IOEnv.PROP
Has(x, S) == \E i \in DOMAIN S : S[i] = x
If2(b, s) == IF b THEN {} ELSE {s}

Results(a, e) ==
  UNION { LET x == e.r[k] IN
     CASE PROP = "K01" ->
            (IF M!Unavailable(a) THEN If2(x.exc = "AttributeError", "available before a successful compute: " \o x.n)
             ELSE IF M!Available(a) THEN If2(x.exc = "", "not readable after a successful compute: " \o x.n)
                       \cup If2(x.kept, "altered while only other objects were used: " \o x.n)
             ELSE {})
       [] PROP = "K02" ->
            (IF M!Available(a) THEN If2(x.exc = "" /\ Has(a.in, x.eq), "differs from a fresh object: " \o x.n) ELSE {})
       [] PROP = "K03" -> If2(x.again, "two readings differ: " \o x.n)
       [] PROP = "K04" ->
            (IF M!Available(a) THEN If2(x.exc = "" /\ Has(a.in, x.eq), "representation of, or later change to, an input shows in: " \o x.n) ELSE {})
       [] OTHER -> {} : k \in DOMAIN e.r }

Verdict(a, e) ==
  (IF PROP = "K01" THEN If2(Len(e.sbad) = 0, "settings do not read back as given") ELSE {})
  \cup (IF PROP = "K02" /\ e.c.op = "comp" THEN If2(e.exc = "", "reused object rejects what a fresh object accepts") ELSE {})
  \cup (IF PROP = "K04" THEN If2(Len(e.touched) = 0, "input modified by the call")
        \cup If2(e.c.op = "comp" => e.exc = "", "representation of the inputs rejected") ELSE {})
  \cup (IF PROP \in {"K03", "K04"} THEN If2(Len(e.changed) = 0, "held result changed") ELSE {})
  \cup Results(M!After(a, e.c, e.exc = ""), e)

NONE == [o \in 1..3 |-> M!Dead]
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {} /\ acc = NONE
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ LET e == T[ep].ev[line + 1] IN
             /\ broken' = Verdict(acc[e.c.o], e)
             /\ acc' = [acc EXCEPT ![e.c.o] = M!After(@, e.c, e.exc = "")]
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
