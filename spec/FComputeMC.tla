------------------------------ MODULE FComputeMC ------------------------------
(* The abstract machine of FCompute refined with storage: what an implementation must do so
   that the abstract guarantees hold.  Every compute allocates a cell for its result and
   never writes to a cell somebody may hold; argument cells belong to the caller, who may
   write to them at any time; the flag is raised only once the result is complete.
   Faulty names one of the disciplines that break a guarantee; for the honest one
   ("none") the invariants must hold; with FComputeFault.cfg each of the
   others makes TLC find a broken guarantee (NeverBad).                                   *)
EXTENDS FCompute, IOUtils
CONSTANTS Objs, Inputs, NCells, MaxHolds, Depth, Faults
Named == {IOEnv.FAULT}

VARIABLES obj, flag, cell, arg, heap, next, holds, n, fault, bad
mvars == <<obj, flag, cell, arg, heap, next, holds, n, fault, bad>>
Garbage == 99

Init == /\ obj = [o \in Objs |-> Dead] /\ flag = [o \in Objs |-> FALSE]
        /\ cell = [o \in Objs |-> 0] /\ arg = [o \in Objs |-> 0]
        /\ heap = [k \in 1..NCells |-> 0] /\ next = 1 /\ holds = {} /\ n = 0
        /\ fault \in Faults /\ bad = FALSE

Broken(ob, fl, ce, he, ho) ==
  \/ \E o \in Objs : Available(ob[o]) /\ (~fl[o] \/ he[ce[o]] # ob[o].in)
  \/ \E o \in Objs : Unavailable(ob[o]) /\ fl[o]
  \/ \E h \in ho : he[h.cell] # h.v

Upd == bad' = (bad \/ Broken(obj', flag', cell', heap', holds'))
New(o) == /\ obj' = [obj EXCEPT ![o] = Fresh] /\ flag' = [flag EXCEPT ![o] = FALSE]
          /\ cell' = [cell EXCEPT ![o] = 0] /\ arg' = [arg EXCEPT ![o] = 0]
          /\ UNCHANGED <<heap, next, holds>>
Comp(o, i) ==
  /\ next + 1 <= NCells
  /\ obj' = [obj EXCEPT ![o] = After(@, [op |-> "comp", i |-> i], TRUE)]
  /\ flag' = [flag EXCEPT ![o] = TRUE]
  /\ arg' = [arg EXCEPT ![o] = next]            \* the caller's array
  /\ LET target == CASE fault = "inplace" /\ cell[o] # 0 -> cell[o]
                     [] fault = "alias" -> next
                     [] fault = "shared" /\ (\E p \in Objs : cell[p] # 0) -> CHOOSE c \in {cell[p] : p \in Objs} : c # 0
                     [] OTHER -> next + 1
         v == IF fault = "stale" /\ cell[o] # 0 THEN heap[cell[o]] ELSE i
     IN /\ cell' = [cell EXCEPT ![o] = target]
        /\ heap' = [heap EXCEPT ![next] = i, ![target] = v]
        /\ next' = next + 2
  /\ UNCHANGED holds
Fail(o) == /\ obj' = [obj EXCEPT ![o] = After(@, [op |-> "fail"], FALSE)]
           /\ flag' = IF fault = "early" THEN [flag EXCEPT ![o] = TRUE] ELSE flag
           /\ UNCHANGED <<cell, arg, heap, next, holds>>
Hold(o) == /\ Available(obj[o]) /\ Cardinality(holds) < MaxHolds
           /\ holds' = holds \cup {[cell |-> cell[o], v |-> heap[cell[o]]]}
           /\ UNCHANGED <<obj, flag, cell, arg, heap, next>>
Scrib(o) == /\ arg[o] # 0 /\ heap[arg[o]] # Garbage
            /\ heap' = [heap EXCEPT ![arg[o]] = Garbage]
            /\ UNCHANGED <<obj, flag, cell, arg, next, holds>>
Del(o) == /\ obj' = [obj EXCEPT ![o] = Dead] /\ UNCHANGED <<flag, cell, arg, heap, next, holds>>
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED fault
        /\ \E o \in Objs : \/ New(o) /\ ~Alive(obj[o])
                           \/ Alive(obj[o]) /\ ((\E i \in Inputs : Comp(o, i)) \/ Fail(o) \/ Hold(o) \/ Scrib(o) \/ Del(o))
        /\ Upd
Spec == Init /\ [][Next]_mvars

NeverBad == ~bad
Honest == fault = "none" => ~bad
TypeOK == \A o \in Objs : obj[o].st \in {"none", "new", "ok", "unknown"} /\ cell[o] \in 0..NCells
AbstractAgrees == fault = "none" => \A o \in Objs : Available(obj[o]) => flag[o] /\ heap[cell[o]] = obj[o].in
HeldStable == fault = "none" => \A h \in holds : heap[h.cell] = h.v
=============================================================================
