------------------------------ MODULE FDensity ------------------------------
(* Densities on grids and around points (D01-D03).

   Design model: one axis of a periodic grid of W cells of G units; a point at offset x visits a
   window of cells, one per step, and tests the distance to each centre.  The windows must
   cover every cell within R of the point and visit no cell twice, so that a voxel is marked
   exactly when it is near and a kernel is added exactly once. *)
EXTENDS FDensityOps
CONSTANTS Widths, Grids, Radii2           \* radii in half units
VARIABLES w, g, x, r2, k, seen, done
dvars == <<w, g, x, r2, k, seen, done>>
Bin == x \div g
\* int(r/g + 1/2), at most w
Cut == Min2((r2 + g) \div (2*g), w)
DInit == /\ w \in Widths /\ g \in Grids /\ r2 \in Radii2 /\ x \in 0..Max2(1, w*g - 1) /\ x < w*g
         /\ k = Bin - Cut /\ seen = <<>> /\ done = FALSE
Visit == /\ ~done /\ k <= Bin + Cut /\ k < Bin - Cut + w
         /\ seen' = Append(seen, (k + w) % w) /\ k' = k + 1 /\ UNCHANGED <<w, g, x, r2, done>>
Stop == /\ ~done /\ ~(k <= Bin + Cut /\ k < Bin - Cut + w) /\ done' = TRUE /\ UNCHANGED <<w, g, x, r2, k, seen>>
DNext == Visit \/ Stop
DSpec == DInit /\ [][DNext]_dvars
\* twice the distance from the point to the centre of cell i, over the nearest image
Dist2(i) == LET a == Abs(2*x - (2*i + 1)*g) IN Min2(a, 2*w*g - a)
DInv == /\ \A i, j \in 1..Len(seen) : i # j => seen[i] # seen[j]
        /\ done => \A i \in 0..w-1 : Dist2(i) < r2 => i \in SeqSet(seen)

\* the ramp of LocalDensity: whole inside, nothing outside, never increasing
ASSUME \A d \in 0..12, R \in 1..8, S \in 0..6 :
         LET a == Ramp(d, R, S)  b == Ramp(d+1, R, S) IN
           /\ 0 <= a /\ a <= RampDen(S) /\ b <= a
           /\ (2*d <= 2*R - S /\ S > 0 => a = RampDen(S)) /\ (2*d >= 2*R + S => a = 0)
=============================================================================
