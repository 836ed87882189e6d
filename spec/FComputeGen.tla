----------------------------- MODULE FComputeGen -----------------------------
(* Histories for K01-K04.  Ops: which commands occur; Reuse: may an object that has
   computed compute again; Variants x Masks: in which representation and for which of the
   arrays the inputs are passed. *)
EXTENDS FCompute, Json
CONSTANTS Objs, Inputs, Bads, Ops, Reuse, Variants, Masks, Depth
VARIABLES obj, held, log
gvars == <<obj, held, log>>
AllVariants == 0..11
SomeMasks == 0..3
Zero == {0}
OpsK1 == {"new", "comp", "fail", "read", "del"}
OpsK2 == {"new", "comp", "fail", "read"}
OpsK3 == {"new", "comp", "hold", "held", "fail", "del"}
OpsK4 == {"new", "comp", "scrib", "read", "hold", "held", "fail"}

Do(c) == /\ c.op \in Ops
         /\ log' = Append(log, c)
         /\ obj' = [obj EXCEPT ![c.o] = After(@, c, c.op # "fail")]

GInit == obj = [o \in Objs |-> Dead] /\ held = 0 /\ log = <<>>
Last(o) == IF log = <<>> THEN "" ELSE IF log[Len(log)].o = o THEN log[Len(log)].op ELSE ""
GNext ==
  /\ Len(log) < Depth
  /\ \E o \in Objs :
       \/ ~Alive(obj[o]) /\ Do([op |-> "new", o |-> o]) /\ UNCHANGED held
       \/ /\ Alive(obj[o]) /\ (Reuse \/ obj[o].st = "new")
          /\ \E i \in {RandomElement(Inputs)}, v \in {RandomElement(Variants)}, m \in {RandomElement(Masks)} :
               Do([op |-> "comp", o |-> o, i |-> i, v |-> v, m |-> m])
          /\ UNCHANGED held
       \/ /\ Alive(obj[o]) /\ (Reuse \/ obj[o].st = "new") /\ Last(o) # "fail"
          /\ \E i \in {RandomElement(Inputs)}, b \in {RandomElement(Bads)} : Do([op |-> "fail", o |-> o, i |-> i, b |-> b])
          /\ UNCHANGED held
       \/ Alive(obj[o]) /\ Last(o) # "read" /\ Do([op |-> "read", o |-> o]) /\ UNCHANGED held
       \/ Available(obj[o]) /\ Last(o) # "hold" /\ Do([op |-> "hold", o |-> o]) /\ held' = held + 1
       \/ held > 0 /\ Last(o) # "held" /\ Do([op |-> "held", o |-> o]) /\ UNCHANGED held
       \/ Available(obj[o]) /\ Last(o) = "comp" /\ Do([op |-> "scrib", o |-> o]) /\ UNCHANGED held
       \* an object that may not compute again is replaced
       \/ ~Reuse /\ Available(obj[o]) /\ Last(o) \in {"read", "held"} /\ Do([op |-> "new", o |-> o]) /\ UNCHANGED held
       \/ Alive(obj[o]) /\ Do([op |-> "del", o |-> o]) /\ UNCHANGED held
  /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
