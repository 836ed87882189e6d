-------------------------------- MODULE FHist --------------------------------
(* Histogram analyses (H01-H05).

   The analyses share one accumulator: frames are added, each by any number of workers into
   worker-local histograms, results are produced lazily on the first read after a change.
   The design model below has the workers, the dirty flag, the frame counter and the frame
   that normalises; its invariant is that whatever is read equals the sum over exactly the
   frames accepted since the last reset, however work was divided, whenever results were read
   and whatever calls were rejected in between. *)
EXTENDS Lat, TLC

CONSTANTS Workers, FrameIds, BondsOf, MaxFrames,
          Faults      \* planted design faults, to see that the invariant tells them apart
VARIABLES loc,      \* worker -> bin -> count
          glob,     \* bin -> count, as last reduced
          dirty, nf, norm, done, todo, cur, frames, shown, shownOK
hvars == <<loc, glob, dirty, nf, norm, done, todo, cur, frames, shown, shownOK>>
Bins == 0..1
NoCounts == [b \in Bins |-> 0]
AddTo(c, b) == [c EXCEPT ![b] = @ + 1]
FrameCount(f, b) == Cardinality({ k \in 1..Len(BondsOf[f]) : BondsOf[f][k] = b })
SumFrames(fs, b) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE FrameCount(fs[i], b) + S(i-1) IN S(Len(fs))
HInit == /\ loc = [w \in Workers |-> NoCounts] /\ glob = NoCounts /\ dirty = TRUE /\ nf = 0 /\ norm = 0 /\ done = FALSE
         /\ todo = {} /\ cur = 0 /\ frames = <<>> /\ shown = <<>> /\ shownOK = TRUE
\* a compute call: optional reset, then its bonds are handed out
Start(f, reset) ==
  /\ cur = 0 /\ (Len(frames) < MaxFrames \/ reset)
  /\ cur' = f /\ todo' = 1..Len(BondsOf[f])
  /\ loc' = IF reset /\ "reset-keeps-locals" \notin Faults THEN [w \in Workers |-> NoCounts] ELSE loc
  /\ glob' = IF reset THEN NoCounts ELSE glob
  /\ nf' = IF reset THEN 0 ELSE nf
  /\ frames' = IF reset THEN <<>> ELSE frames
  /\ norm' = IF "early-norm" \in Faults THEN f ELSE norm
  /\ dirty' = TRUE
  /\ UNCHANGED <<done, shown, shownOK>>
Take(w, k) == /\ k \in todo /\ todo' = todo \ {k}
              /\ loc' = [loc EXCEPT ![w] = AddTo(@, BondsOf[cur][k])]
              /\ UNCHANGED <<glob, dirty, nf, norm, done, cur, frames, shown, shownOK>>
Finish == /\ cur # 0 /\ todo = {} /\ cur' = 0 /\ nf' = nf + 1 /\ done' = TRUE
          /\ dirty' = (("finish-keeps-clean" \notin Faults) \/ nf = 0)
          /\ frames' = Append(frames, cur) /\ norm' = cur
          /\ UNCHANGED <<loc, glob, todo, shown, shownOK>>
\* a call that is refused without reset, before any of its bonds was handed out
Reject(f) == /\ cur = 0
             /\ norm' = IF "early-norm" \in Faults THEN f ELSE norm
             /\ nf' = IF "early-count" \in Faults THEN nf + 1 ELSE nf
             /\ UNCHANGED <<loc, glob, dirty, done, todo, cur, frames, shown, shownOK>>
Reduced == [b \in Bins |-> Sum([w \in Workers |-> loc[w][b]])]
Read == /\ cur = 0 /\ done /\ frames # <<>>
        /\ glob' = IF dirty THEN (IF "reduce-adds" \in Faults THEN [b \in Bins |-> glob[b] + Reduced[b]] ELSE Reduced) ELSE glob
        /\ dirty' = FALSE
        /\ shown' = <<glob', nf, norm>>
        /\ shownOK' = /\ \A b \in Bins : glob'[b] = SumFrames(frames, b)
                      /\ nf = Len(frames) /\ norm = frames[Len(frames)]
        /\ UNCHANGED <<loc, nf, norm, done, todo, cur, frames>>
HNext == \/ \E f \in FrameIds, r \in BOOLEAN : Start(f, r)
         \/ \E w \in Workers, k \in todo : Take(w, k)
         \/ \E f \in FrameIds : Reject(f)
         \/ Finish \/ Read
HSpec == HInit /\ [][HNext]_hvars
HInv == shownOK
=============================================================================
