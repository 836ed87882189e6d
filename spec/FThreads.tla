------------------------------ MODULE FThreads ------------------------------
(* The thread-count setting (T02).  cur is the value get_num_threads reports (0 means
   automatic); stack holds, for every context entered and not yet left, the context and the
   value that was in force when it was entered.  A context object may be constructed long
   before it is entered, entered again after it was left, or entered inside itself.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

None == -99                       \* Python's None
Norm(v) == IF v = None \/ v < 0 THEN 0 ELSE v
Ctx == 1..3
S0 == [cur |-> 0, n |-> [k \in Ctx |-> None], made |-> {}, stack |-> <<>>]

\* the state after command c (bad: the command must be rejected and change nothing)
Apply(s, c) ==
  CASE c.op = "set"   -> [s EXCEPT !.cur = Norm(c.v)]
    [] c.op = "ctor"  -> [s EXCEPT !.n[c.k] = c.v, !.made = @ \cup {c.k}]
    [] c.op = "enter" -> [s EXCEPT !.stack = Append(@, [k |-> c.k, saved |-> s.cur]), !.cur = Norm(s.n[c.k])]
    [] c.op = "exit"  -> [s EXCEPT !.cur = s.stack[Len(s.stack)].saved,
                                   !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> s                 \* badset, badenter, work, get
OnStack(s, k) == \E i \in DOMAIN s.stack : s.stack[i].k = k
Top(s) == s.stack[Len(s.stack)].k
-----------------------------------------------------------------------------
CONSTANTS Values, Depth, Faults
VARIABLES s, hist, log, fault, impl
vars == <<s, hist, log, fault, impl>>
Named == {IOEnv.FAULT}
Few == {0, 1, 2}
Many == {-99, -1, 0, 1, 2, 3, 5, 7, 8}
\* impl: what an implementation with the given fault reports (the honest one keeps a stack per
\* context; "ctor" remembers the value at construction, "single" keeps one value per context)
I0 == [cur |-> 0, one |-> [k \in Ctx |-> 0]]
Impl(i, st, c) ==
  CASE c.op = "set" -> [i EXCEPT !.cur = Norm(c.v)]
    [] c.op = "ctor" -> IF fault = "ctor" THEN [i EXCEPT !.one[c.k] = i.cur] ELSE i
    [] c.op = "enter" -> [i EXCEPT !.cur = Norm(st.n[c.k]),
                                   !.one[c.k] = IF fault = "single" THEN i.cur ELSE @]
    [] c.op = "exit" -> [i EXCEPT !.cur = IF fault = "none" THEN st.stack[Len(st.stack)].saved ELSE i.one[c.k]]
    [] OTHER -> i

Cmds(st) ==
  {[op |-> "set", v |-> v] : v \in Values}
  \cup {[op |-> "ctor", k |-> k, v |-> v] : k \in {x \in Ctx : ~OnStack(st, x)}, v \in Values}
  \cup (IF Len(st.stack) < 4 THEN {[op |-> "enter", k |-> k] : k \in st.made} ELSE {})
  \cup (IF st.stack # <<>> THEN {[op |-> "exit", k |-> Top(st), exc |-> x] : x \in BOOLEAN} ELSE {})
Extra == {[op |-> "badset", v |-> v] : v \in 1..5} \cup {[op |-> "badenter", v |-> v] : v \in 1..5}
         \cup {[op |-> "work", v |-> v] : v \in 1..3}
Init == s = S0 /\ hist = <<0>> /\ log = <<>> /\ fault \in Faults /\ impl = I0
Step(c) == /\ s' = Apply(s, c) /\ impl' = Impl(impl, s, c)
           /\ hist' = IF c.op = "enter" THEN Append(hist, s.cur)
                      ELSE IF c.op = "exit" THEN SubSeq(hist, 1, Len(hist) - 1) ELSE hist
           /\ UNCHANGED fault
Next == Len(log) < Depth /\ \E c \in Cmds(s) : Step(c) /\ log' = Append(log, c.op)
Spec == Init /\ [][Next]_vars
\* generation of histories
Kind(ops, c) == c.op \in ops
GNext == /\ Len(log) < Depth
         /\ \/ \E o \in {"set", "ctor", "enter", "exit"} :
                 LET S == {c \in Cmds(s) : c.op = o} IN
                   S # {} /\ \E c \in {RandomElement(S)} : Step(c) /\ log' = Append(log, c)
            \/ s.stack # <<>> /\ \E x \in {RandomElement(BOOLEAN)} : \E c \in {[op |-> "exit", k |-> Top(s), exc |-> x]} : Step(c) /\ log' = Append(log, c)
            \/ \E c \in {RandomElement(Extra)} : Step(c) /\ log' = Append(log, c)
         /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GenSpec == Init /\ [][GNext]_vars

\* leaving every context restores, frame by frame, the value in force at its entry
Restores == /\ Len(hist) = Len(s.stack) + 1
            /\ \A i \in DOMAIN s.stack : s.stack[i].saved = hist[i + 1]
ImplAgrees == fault = "none" => impl.cur = s.cur
NeverBad == impl.cur = s.cur
=============================================================================
