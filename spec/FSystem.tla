------------------------------- MODULE FSystem -------------------------------
(* What NeighborQuery.from_system must make of every documented way to hand a system to freud
   (Q06).  A system is [L, t, d, per, P]: box lengths and tilt factors (in eighths), dimension,
   periodicity and points (in 64ths).  A presentation is what the user holds:

     [form, kind, nums, dims, cell, pk, P]
       form  how box and points are carried (a pair, an object, a trajectory frame, ...)
       kind  how the box itself is described
       nums  the numbers in that description (eighths), per its periodicity if it has one
       dims  the dimensionality stated next to it (0: not stated)
       pk    what the array of points is

   Encode makes the presentation of a system, Decode the system a presentation denotes.  The
   object freud holds is [cls, sys]; converting it again must not change what it denotes.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Pairs == {"tuple", "list", "named"}
Kinds == {"Box", "list2", "list3", "list6", "tuple6", "arr6", "dict", "dictdims", "obj", "objdims", "matrix", "rows"}
Free == Pairs \cup {"attr"}                        \* forms that may carry any kind of box
Held == {"raw", "aabb", "linkcell"}                \* freud's own objects, made from a Box
KindsOf(f) == CASE f \in Free -> Kinds \ {"rows"}
                [] f \in Held -> {"Box"}
                [] f = "hoomd2" -> {"objdims", "Box"}
                [] f \in {"gsd", "gsdsub", "gsdold", "hoomd3"} -> {"arr6", "list6"}
                [] f \in {"mda", "mdaold"} -> {"rows"}
                [] f \in {"garnett", "garnettold"} -> {"objdims", "Box"}
                [] f \in {"ovito", "ovitoold", "ovitoscript"} -> {"matrix"}
Forms == Free \cup Held \cup {"hoomd2", "gsd", "gsdsub", "gsdold", "hoomd3", "mda", "mdaold",
                              "garnett", "garnettold", "ovito", "ovitoold", "ovitoscript"}
\* forms whose 2D frames carry a made-up third length next to an explicit dimensionality
Frames == {"hoomd2", "gsd", "gsdsub", "gsdold", "hoomd3", "ovito", "ovitoold", "ovitoscript"}

AllPer(s) == \A i \in 1..3 : s.per[i]
Expressible(f, k, s, a) ==
  /\ k \in KindsOf(f)
  /\ k = "Box" \/ AllPer(s)
  /\ k = "list2" => s.d = 2 /\ s.t[1] = 0 /\ a # 3
  /\ k = "list3" => s.t = <<0, 0, 0>>
  /\ k = "rows" => s.d = 3                         \* MDAnalysis has no flat boxes
  /\ a = 0 \/ (f \notin Held /\ a = s.d)

\* matrix of lattice vectors, as columns, in eighths
Matrix(L, t) == << <<L[1], (t[1]*L[2]) \div 8, (t[2]*L[3]) \div 8>>,
                   <<0, L[2], (t[3]*L[3]) \div 8>>, <<0, 0, L[3]>> >>
Transposed(M) == [i \in 1..3 |-> [j \in 1..3 |-> M[j][i]]]

States(k) == k \in {"dictdims", "objdims", "Box"}  \* kinds that state a dimensionality themselves
Encode(f, k, pk, s, a) ==
  LET filler == s.d = 2 /\ ((f \in Frames /\ k # "Box") \/ (a = 2 /\ k \notin {"Box", "list2"}))
      L == IF s.d = 2 THEN <<s.L[1], s.L[2], IF filler THEN 8 ELSE 0>> ELSE s.L
      t == IF s.d = 2 THEN <<s.t[1], 0, 0>> ELSE s.t
      M == Matrix(L, t) IN
  [form |-> f, kind |-> k, pk |-> pk, P |-> s.P, per |-> s.per,
   nums |-> CASE k = "list2" -> <<L[1], L[2]>>
              [] k = "list3" -> L
              [] k = "matrix" -> M[1] \o M[2] \o M[3]
              [] k = "rows" -> Transposed(M)[1] \o Transposed(M)[2] \o Transposed(M)[3]
              [] OTHER -> L \o t,
   dims |-> IF f \in Frames \/ States(k) THEN s.d ELSE 0]

Div(a, b) == IF b = 0 THEN 0 ELSE (8 * a) \div b
\* the system a presentation denotes, a: the dimensions argument (0: none)
Decode(r, a) ==
  LET n == r.nums
      col == IF r.kind = "rows" THEN <<n[1], n[4], n[7], n[5], n[8], n[9]>>   \* read down
             ELSE <<n[1], IF Len(n) > 1 THEN n[2] ELSE 0, IF Len(n) > 2 THEN n[3] ELSE 0>>
                  \o (IF Len(n) = 9 THEN <<n[5], n[6], n[9]>> ELSE <<0, 0, 0>>)
      mat == r.kind \in {"matrix", "rows"}
      L == IF mat THEN <<col[1], col[4], col[6]>>
           ELSE <<n[1], n[2], IF Len(n) > 2 THEN n[3] ELSE 0>>
      t == IF mat THEN <<Div(col[2], col[4]), Div(col[3], col[6]), Div(col[5], col[6])>>
           ELSE IF Len(n) = 6 THEN <<n[4], n[5], n[6]>> ELSE <<0, 0, 0>>
      d == IF r.dims # 0 THEN r.dims ELSE IF a # 0 THEN a ELSE IF L[3] = 0 THEN 2 ELSE 3 IN
  [L |-> IF d = 2 THEN <<L[1], L[2], 0>> ELSE L, t |-> IF d = 2 THEN <<t[1], 0, 0>> ELSE t,
   d |-> d, per |-> IF r.kind = "Box" THEN r.per ELSE <<TRUE, TRUE, TRUE>>, P |-> r.P]
Conflict(r, a) == a # 0 /\ r.dims # 0 /\ r.dims # a

\* freud's classes of holders: asking class c for system x gives back x itself iff x is a c
Is(x, c) == c = "NeighborQuery" \/ x = c
Made(c) == IF c = "NeighborQuery" THEN "_RawPoints" ELSE c
HeldClass(f) == CASE f = "raw" -> "_RawPoints" [] f = "aabb" -> "AABBQuery" [] f = "linkcell" -> "LinkCell"
                  [] OTHER -> ""
-----------------------------------------------------------------------------
CONSTANTS Systems, Classes, Depth, Faults, Gen
VARIABLES sys, obj, log, fault
vars == <<sys, obj, log, fault>>
Named == {IOEnv.FAULT}
None == [cls |-> "", sys |-> <<>>]

\* what a faulty implementation reads from a presentation
Read(r, a) ==
  CASE fault = "rows" -> Decode(IF r.kind = "rows" THEN [r EXCEPT !.kind = "matrix"] ELSE r, a)
    [] fault = "filler" -> Decode(IF r.form \in Frames THEN [r EXCEPT !.dims = 0] ELSE r, a)
    [] fault = "periodic" -> [Decode(r, a) EXCEPT !.per = <<TRUE, TRUE, TRUE>>]
    [] fault = "argument" -> Decode(r, 0)
    [] OTHER -> Decode(r, a)

PKs == {"f32", "f64", "list", "tuples", "strided", "fortran", "readonly"}
Held0(r, c) == IF r.form \in Held THEN HeldClass(r.form) ELSE ""
Give(f, k, pk, a, c) ==
  LET r == Encode(f, k, pk, sys, a)
      was == HeldClass(f) IN
  /\ Expressible(f, k, sys, a)
  /\ obj' = [cls |-> IF was # "" /\ Is(was, c) THEN was ELSE Made(c), sys |-> Read(r, a)]
  /\ log' = Append(log, IF Gen THEN [op |-> "give", r |-> r, a |-> a, c |-> c] ELSE [op |-> "give"])
Again(c) ==
  /\ obj # None
  /\ obj' = [obj EXCEPT !.cls = IF Is(@, c) THEN @ ELSE Made(c)]
  /\ log' = Append(log, [op |-> "again", c |-> c])
\* the box and the points of the object held, handed on in another form
Pass(f, pk, c) ==
  /\ obj # None
  /\ obj' = [cls |-> Made(c), sys |-> Read(Encode(f, "Box", pk, obj.sys, 0), 0)]
  /\ log' = Append(log, [op |-> "pass", f |-> f, pk |-> pk, c |-> c])
Init == sys \in Systems /\ obj = None /\ log = <<>> /\ fault \in Faults
Next ==
  /\ Len(log) < Depth /\ UNCHANGED <<sys, fault>>
  /\ \/ \E f \in Forms : \E k \in KindsOf(f), a \in {0, 2, 3}, c \in Classes : Give(f, k, "f32", a, c)
     \/ \E c \in Classes : Again(c)
     \/ \E f \in Free \cup {"hoomd2"}, c \in Classes : Pass(f, "f32", c)
Spec == Init /\ [][Next]_vars
Denoted == obj # None => obj.sys = sys
\* generation: one random choice of every kind per step, a different system for every behaviour
R(S) == RandomElement(S)
GInit == sys \in {[L |-> IF d = 2 THEN <<l1, l2, 0>> ELSE <<l1, l2, l3>>,
                   t |-> IF d = 2 THEN <<t1, 0, 0>> ELSE <<t1, t2, t3>>, d |-> d, per |-> p,
                   P |-> <<<<1, 2, 0>>, <<-64, 65, 0>>, <<70, -31, 0>>>>] :
                   l1 \in {32, 64}, l2 \in {40, 64}, l3 \in {32, 48}, t1 \in {-4, 0, 3}, t2 \in {0, 5}, t3 \in {0, -2},
                   d \in {2, 3}, p \in {<<TRUE, TRUE, TRUE>>, <<FALSE, TRUE, TRUE>>}}
         /\ obj = None /\ log = <<>> /\ fault = "none"
GNext ==
  /\ Len(log) < Depth /\ UNCHANGED <<sys, fault>>
  /\ \/ \E f \in {R({x \in Forms : \E k \in KindsOf(x) : Expressible(x, k, sys, 0)})} :
          \E k \in {R({x \in KindsOf(f) : Expressible(f, x, sys, 0)})} :
            \E a \in {R({x \in {0, 0, sys.d} : Expressible(f, k, sys, x)})}, c \in {R(Classes)}, pk \in {R(PKs)} : Give(f, k, pk, a, c)
     \/ \E c \in {R(Classes)} : Again(c)
     \/ \E f \in {R(Free \cup {"hoomd2"})}, pk \in {R(PKs)}, c \in {R(Classes)} : Pass(f, pk, c)
     \/ \E f \in {R(Free)}, k \in {R({"Box", "dictdims", "objdims"})}, c \in {R(Classes)} :
          /\ Expressible(f, k, sys, 0)
          /\ log' = Append(log, [op |-> "conflict", r |-> Encode(f, k, "f32", sys, 0), a |-> 5 - sys.d, c |-> c])
          /\ UNCHANGED obj
     \/ \E b \in {R(1..32)}, c \in {R(Classes)} :
          log' = Append(log, [op |-> "bad", b |-> b, c |-> c]) /\ UNCHANGED obj
  /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(<<[op |-> "sys", sys |-> sys]>> \o log')>>))
GenSpec == GInit /\ [][GNext]_vars

S(L, t, d, p) == [L |-> L, t |-> t, d |-> d, per |-> p, P |-> <<<<1, 2, 0>>, <<-3, 0, 0>>>>]
MCSystems ==
  {S(<<64, 72, 80>>, <<0, 0, 0>>, 3, <<TRUE, TRUE, TRUE>>), S(<<64, 72, 80>>, <<2, -3, 1>>, 3, <<TRUE, TRUE, TRUE>>),
   S(<<64, 72, 80>>, <<4, 0, -4>>, 3, <<TRUE, FALSE, TRUE>>), S(<<64, 72, 0>>, <<0, 0, 0>>, 2, <<TRUE, TRUE, TRUE>>),
   S(<<64, 40, 0>>, <<3, 0, 0>>, 2, <<TRUE, TRUE, TRUE>>), S(<<40, 40, 0>>, <<-2, 0, 0>>, 2, <<FALSE, TRUE, TRUE>>)}
MCClasses == {"NeighborQuery", "AABBQuery", "LinkCell"}
=============================================================================
