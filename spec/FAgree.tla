------------------------------- MODULE FAgree --------------------------------
(* Agreement (W06).  Analyses that tell of the same bonds, points or turns agree on what they both
   tell, however each of them puts it.

   The machine: bonds are met one by one, in frames.  A bond is a separation r and the angle t of
   its direction, both in small integers.  Five views are kept of them, each by its own rule, as the
   analyses do: the counts by r, the running number per frame, the counts by r and angle, the counts
   by quadrant, and the mean of a value that is the same for all.  Agree says which sums of one
   view are another.  Faulty views: "first" (the first frame is forgotten by one of them), "turn"
   (angles counted from the other end), "edge" (the last bin of one view is not counted), "own"
   (bonds met twice in a frame count once), "frames" (the running number is not divided).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxR, Turns, Depth, Faults
Named == {IOEnv.FAULT}
VARIABLES met, frames, seen, byR, byRT, quad, run, log, fault
vars == <<met, frames, seen, byR, byRT, quad, run, log, fault>>
R == 0..MaxR - 1
A == 0..Turns - 1
RECURSIVE Sum(_, _)
Sum(F, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE y \in S : TRUE IN F[e] + Sum(F, S \ {e})
Init == /\ met = 0 /\ frames = 1 /\ seen = {} /\ fault \in Faults /\ log = <<>>
        /\ byR = [r \in R |-> 0] /\ byRT = [x \in R \X A |-> 0] /\ quad = [q \in 0..3 |-> 0] /\ run = [r \in R |-> 0]
Meet(r, t) == /\ met' = met + 1 /\ seen' = seen \cup {<<r, t>>}
              /\ byR' = [byR EXCEPT ![r] = IF fault = "own" /\ <<r, t>> \in seen THEN @ ELSE @ + 1]
              /\ byRT' = IF fault = "edge" /\ t = Turns - 1 THEN byRT ELSE [byRT EXCEPT ![<<r, t>>] = @ + 1]
              /\ quad' = [quad EXCEPT ![LET u == IF fault = "turn" THEN (Turns - t) % Turns ELSE t IN (4 * u) \div Turns] = @ + 1]
              /\ run' = [x \in R |-> IF r <= x THEN run[x] + 1 ELSE run[x]]
              /\ log' = Append(log, <<r, t>>) /\ UNCHANGED <<frames, fault>>
Frame == /\ frames' = frames + 1 /\ seen' = {} /\ log' = Append(log, <<>>)
         /\ byR' = IF fault = "first" /\ frames = 1 THEN [r \in R |-> 0] ELSE byR
         /\ UNCHANGED <<met, byRT, quad, run, fault>>
Next == Len(log) < Depth /\ (Frame \/ \E r \in R, t \in A : Meet(r, t))
Spec == Init /\ [][Next]_vars
\* run is told per frame: run / frames
Told == [r \in R |-> IF fault = "frames" THEN <<run[r], 1>> ELSE <<run[r], frames>>]
Agree == /\ \A r \in R : Sum([t \in A |-> byRT[<<r, t>>]], A) = byR[r]
         /\ \A q \in 0..3 : Sum([x \in R \X A |-> IF (4 * x[2]) \div Turns = q THEN byRT[x] ELSE 0], R \X A) = quad[q]
         /\ \A r \in R : Sum([s \in R |-> IF s <= r THEN byR[s] ELSE 0], R) * Told[r][2] = Told[r][1] * frames
         /\ Sum(quad, 0..3) = met

-----------------------------------------------------------------------------
(* what two analyses of the real code are asked about *)
Plane == {"counts", "angles of bonds", "quadrants"}
Every == {"counts", "octants", "local density", "ends", "centre", "windows", "voxels", "separations of orientations", "turns",
        "projections", "copies", "distances", "images", "weights", "free energy", "one cluster", "cumulative"}
Pairs == Plane \cup Every
GNext == /\ Len(log) < Depth /\ UNCHANGED <<met, frames, seen, byR, byRT, quad, run, fault>>
         /\ \E p \in {RandomElement(Pairs)} : \E k \in {RandomElement(0..7)} : \E f \in {RandomElement(1..3)} :
              log' = Append(log, [pair |-> p, k |-> k, frames |-> f])
         /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GenSpec == Init /\ [][GNext]_vars
=============================================================================
