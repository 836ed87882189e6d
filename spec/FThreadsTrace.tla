---------------------------- MODULE FThreadsTrace ----------------------------
(* Recorded histories of freud.parallel against FThreads.  Every event: the command, whether
   it was accepted, what get_num_threads reports afterwards, the number of threads TBB is
   limited to (-1 if unobservable), whether an exception was swallowed, and for work: whether
   the results equal those computed under the automatic setting. *)
EXTENDS TraceBase
VARIABLES ep, line, broken, acc
vars == <<ep, line, broken, acc>>
M == INSTANCE FThreads WITH Values <- {}, Depth <- 0, Faults <- {}, s <- acc, hist <- <<>>, log <- <<>>,
                            fault <- "none", impl <- [cur |-> 0]
B(b, t) == IF b THEN {} ELSE {t}
Verdict(st, e) ==
  B(e.ok = (e.c.op \notin {"badset", "badenter"}), IF e.ok THEN "invalid thread count accepted" ELSE "valid call rejected")
  \cup B(e.get = st.cur, "get_num_threads after " \o e.c.op)
  \cup B(e.act < 0 \/ e.act = (IF st.cur = 0 THEN T[ep].auto ELSE st.cur), "threads in force after " \o e.c.op)
  \cup B(~e.swallowed, "exception swallowed by the context")
  \cup B(e.same, "result changed with the setting")
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {} /\ acc = M!S0
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ LET e == T[ep].ev[line + 1]
               st == M!Apply(acc, e.c) IN
             /\ acc' = st /\ broken' = Verdict(st, e)
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken, acc |-> acc]
=============================================================================
