-------------------------------- MODULE FBox --------------------------------
(* freud.box.Box as a state machine.

   Part 1 (properties B01-B04, B06): a particle moving through a box.  v0 is its true
   position, v the stored (possibly wrapped) one and img the images it crossed:
   Move translates it, DoWrap replaces v by its representative in the box.  The
   invariants are the meaning of wrap / images / unwrap / distances.

   Part 2 (property B05): the mutable description of a box (hb) under its constructors
   and setters. *)
EXTENDS Lat, TLC

VARIABLES box, v, v0, img
pvars == <<box, v, v0, img>>

CONSTANTS Boxes, Steps, Reach

Move(d) == /\ \A i \in 1..3 : Abs(v0[i] + d[i]) <= Reach
           /\ v' = Add(v, d) /\ v0' = Add(v0, d) /\ UNCHANGED <<box, img>>
DoWrap == /\ v' = Wrap(box, v) /\ img' = Add(img, WrapN(box, v)) /\ UNCHANGED <<box, v0>>

PInit == box \in Boxes /\ v = Zero /\ v0 = Zero /\ img = Zero
PNext == DoWrap \/ \E d \in Steps : Move(d) /\ (box.d = 2 => d[3] = 0)
PSpec == PInit /\ [][PNext]_pvars

Unwrapped == Add(v, Lattice(box, img)) = v0
Idempotent == Wrap(box, Wrap(box, v)) = Wrap(box, v)
LandsInside == InBox(box, Wrap(box, v))
OnlyPeriodic == \A i \in 1..3 : ~box.per[i] => WrapN(box, v)[i] = 0
Translates == \A n \in {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<-1,2,-1>>} :
   LET m == PerOnly(box, n) IN Wrap(box, Add(v, Lattice(box, m))) = Wrap(box, v)
ImageInverse == \A n \in {<<1,0,0>>, <<0,-1,0>>, <<0,0,1>>, <<-2,1,1>>} :
   LET w == Sub(v, Lattice(box, Cell(box, v)))
       m == IF box.d = 2 THEN <<n[1], n[2], 0>> ELSE n
   IN Cell(box, Add(w, Lattice(box, m))) = m
AllPer == \A i \in Dirs(box) : box.per[i]
\* a wrapped vector shorter than half the plane spacing is the unique shortest image
ShortIsMinimal == AllPer /\ BelowHalfPlane(box, MinImage2(box, v)) =>
                     Sq(Wrap(box, v)) = MinImage2(box, v)
WrapSetSound == Wrap(box, v) \in WrapSet(box, v)
PInv == /\ Unwrapped /\ Idempotent /\ LandsInside /\ OnlyPeriodic /\ Translates
        /\ ImageInverse /\ ShortIsMinimal /\ WrapSetSound
------------------------------------------------------------------------------
MCBoxes ==
  LET O == [L |-> <<4,4,4>>, bx |-> 0, cx |-> 0, cy |-> 0, d |-> 3, per |-> <<TRUE,TRUE,TRUE>>, ex |-> TRUE] IN
  {O, [O EXCEPT !.L = <<4,2,6>>], [O EXCEPT !.bx = 2], [O EXCEPT !.bx = -3, !.cx = 1, !.cy = 2],
   [O EXCEPT !.L = <<3,5,4>>, !.cx = 6, !.cy = -5], [O EXCEPT !.per = <<TRUE,FALSE,TRUE>>, !.bx = 1, !.cy = 3],
   [O EXCEPT !.per = <<FALSE,FALSE,TRUE>>, !.cx = -2],
   [O EXCEPT !.L = <<4,6,1>>, !.d = 2], [O EXCEPT !.L = <<4,3,1>>, !.d = 2, !.bx = 5],
   [O EXCEPT !.L = <<4,4,1>>, !.d = 2, !.bx = -2, !.per = <<FALSE,TRUE,TRUE>>]}
MCSteps == {<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>}
=============================================================================
