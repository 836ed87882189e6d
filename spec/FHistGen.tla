------------------------------ MODULE FHistGen ------------------------------
(* Histories for H02: interleavings of compute (with and without reset), refused calls and
   reads; the kind of the next step is picked first. *)
EXTENDS FHist, Json
VARIABLE log
CONSTANT Depth
B3 == <<<<0>>, <<1>>, <<0, 1>>, <<>> >>
GInit == HInit /\ log = <<>>
Rec(c) == log' = Append(log, c)
Last == IF log = <<>> THEN "" ELSE log[Len(log)].op
Idle == \E o \in {RandomElement(1..10)} :
  CASE (o = 10 /\ Last # "x") \/ (o >= 8 /\ Last \in {"", "c"}) ->
              \E f \in {RandomElement(FrameIds)} : Reject(f) /\ Rec([op |-> "x", f |-> f, k |-> Len(log)])
    [] done /\ frames # <<>> /\ (o >= 7 \/ (o >= 4 /\ Last = "x")) -> \E k \in {RandomElement(0..7)} : Read /\ Rec([op |-> "r", k |-> k])
    [] OTHER -> \E f \in {RandomElement(FrameIds)} : \E x \in {RandomElement(1..3)} :
                  LET r == x = 1 \/ Len(frames) = MaxFrames IN Start(f, r) /\ Rec([op |-> "c", f |-> f, reset |-> r])
GNext == /\ Len(log) < Depth
         /\ \/ cur = 0 /\ Idle
            \/ (\E w \in Workers, k \in todo : Take(w, k)) /\ UNCHANGED log
            \/ Finish /\ UNCHANGED log
         /\ (log' # log /\ Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GSpec == GInit /\ [][GNext]_<<hvars, log>>
=============================================================================
