------------------------------ MODULE FReprTrace ------------------------------
(* Recorded objects: every event tells the settings of the object at hand (sequences of integers,
   numbers to one part in 2^14 of a unit) and, after a copy, whether it looks and computes like the
   one it was read from.  acc: the settings the object was made with or assigned since.          *)
EXTENDS TraceBase
VARIABLES ep, line, broken, acc
vars == <<ep, line, broken, acc>>
Same(x, y) == Len(x) = Len(y) /\ \A k \in DOMAIN x : x[k] - y[k] \in -2..2
Meant(e) == IF e.op = "make" THEN e.want ELSE IF e.op = "assign" THEN [acc EXCEPT ![e.name] = e.value] ELSE acc
Verdict(e) == IF e.exc # "" THEN {"rejected: " \o e.exc}
              ELSE {"setting " \o n : n \in {n \in DOMAIN Meant(e) : ~Same(Meant(e)[n], e.got[n])}}
                   \cup If(e.repr, "representation of the copy") \cup If(e.results, "results of the copy")
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {} /\ acc = <<>>
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ broken' = Verdict(T[ep].ev[line + 1]) /\ acc' = Meant(T[ep].ev[line + 1])
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
