--------------------------------- MODULE FPlot --------------------------------
(* G01: pictures show the results they are drawn from.

   A figure is a list of axes, each a list of items.  An item is what a viewer can read back: a
   line is a sequence of points, bars are pairs <<key, height>>, an image is a table of rows from
   the top with an extent, a box is a set of edges.  The machine draws results of an analysis on new or
   given axes; the invariant is that everything drawn so far reads back as what was drawn.
   Faulty pictures: "transpose", "noflip" (rows from the bottom), "onto" (given axes are
   cleared), "first" (bars in the order of the keys), "half" (a line loses its last point).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Tables, Counts, Depth, Faults
Named == {IOEnv.FAULT}
VARIABLES fig, want, log, fault
vars == <<fig, want, log, fault>>

\* ---- what the items of a picture say ----
\* image rows from the top (upper) or bottom: value shown in column i, row j from the bottom
Shown(img, upper, i, j) == IF upper THEN img[Len(img) + 1 - j][i] ELSE img[j][i]
\* A[i][j] is the value at x bin i and y bin j
ImageOf(img, upper, A) ==
  /\ Len(img) = Len(A[1]) /\ \A r \in 1..Len(img) : Len(img[r]) = Len(A)
  /\ \A i \in 1..Len(A), j \in 1..Len(A[1]) : Shown(img, upper, i, j) = A[i][j]
\* bars <<label, height>> of the counts of keys (pairs): the most frequent, most frequent first
BarsOf(bars, kc, n) ==
  LET S == {kc[k] : k \in DOMAIN kc}  D == {bars[k] : k \in DOMAIN bars} IN
  /\ Len(bars) = (IF Len(kc) < n THEN Len(kc) ELSE n) /\ Cardinality(D) = Len(bars) /\ D \subseteq S
  /\ \A k \in 1..Len(bars) - 1 : bars[k][2] >= bars[k + 1][2]
  /\ \A x \in D, y \in S \ D : x[2] >= y[2]
\* histogram: bars <<low edge, high edge, height>> of values, which are known to one unit
HistOf(bars, vals) ==
  LET N(k, m) == Cardinality({i \in DOMAIN vals : vals[i] >= bars[k][1] - m /\ vals[i] < bars[k][2] + m}) IN
  /\ \A k \in DOMAIN bars : N(k, -2) <= bars[k][3] /\ bars[k][3] <= N(k, 2)
  /\ LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE bars[k][3] + S(k - 1) IN S(Len(bars)) = Len(vals)
\* edges {p, q} of the parallelepiped of the lattice vectors a (rows) at an image, doubled coordinates
Corner(a, im, c) == [x \in 1..Len(a[1]) |->
   LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE (2*(c[k] + im[k]) - 1) * a[k][x] + S(k - 1) IN S(Len(a))]
Bits(d) == [1..d -> {0, 1}]
EdgesOf(a, im) == {{Corner(a, im, c), Corner(a, im, [c EXCEPT ![k] = 1])} : <<c, k>> \in {<<c, k>> \in Bits(Len(a)) \X (1..Len(a)) : c[k] = 0}}
BoxOf(segs, a, im) == {{segs[k][1], segs[k][2]} : k \in DOMAIN segs} = EdgesOf(a, im) /\ Len(segs) = Cardinality(EdgesOf(a, im))
\* one pixel per entry: brighter for larger, from 0 at vmin and below to 255 at vmax and above
PixelsOf(pix, A, lo, hi) ==
  /\ Len(pix) = Len(A) /\ \A r \in DOMAIN A : Len(pix[r]) = Len(A[r])
  /\ LET Cells == {<<r, c>> : r \in DOMAIN A, c \in DOMAIN A[1]}  V(x) == A[x[1]][x[2]]  P(x) == pix[x[1]][x[2]] IN
     /\ \A x \in Cells : (V(x) < lo => P(x) = 0) /\ (V(x) > hi => P(x) = 255)
     /\ LET M == [p \in {P(x) : x \in Cells} |-> {V(x) : x \in {y \in Cells : P(y) = p}}] IN
        \A p \in DOMAIN M, q \in DOMAIN M : p < q => \A v \in M[p], w \in M[q] : v <= w + 1

\* ---- drawing ----
Rows(A, f) == LET nx == Len(A)  ny == Len(A[1]) IN
  CASE f = "transpose" -> [r \in 1..nx |-> [c \in 1..ny |-> A[nx + 1 - r][c]]]
    [] f = "noflip" -> [r \in 1..ny |-> [c \in 1..nx |-> A[c][r]]]
    [] OTHER -> [r \in 1..ny |-> [c \in 1..nx |-> A[c][ny + 1 - r]]]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x[2] > y[2] \/ (x[2] = y[2] /\ x[1] <= y[1]) IN <<x>> \o Sorted(S \ {x})
Most(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
Item(w, f) == CASE w[1] = "image" -> Rows(w[2], f)
                [] w[1] = "bars" -> (IF f = "first" THEN Most(w[2], 2) ELSE Most(Sorted({w[2][k] : k \in DOMAIN w[2]}), 2))
                [] OTHER -> (IF f = "half" THEN SubSeq(w[2], 1, Len(w[2]) - 1) ELSE w[2])
Says(it, w) == CASE w[1] = "image" -> ImageOf(it, TRUE, w[2])
                 [] w[1] = "bars" -> BarsOf(it, w[2], 2)
                 [] OTHER -> it = w[2]
Things == ({"image"} \X Tables) \cup ({"bars"} \X {[k \in 1..Len(c) |-> <<k, c[k]>>] : c \in Counts}) \cup ({"line"} \X Counts)
Init == fig = <<>> /\ want = <<>> /\ log = <<>> /\ fault \in Faults
New(w) == fig' = Append(fig, <<Item(w, fault)>>) /\ want' = Append(want, <<w>>)
On(i, w) == /\ fig' = [fig EXCEPT ![i] = IF fault = "onto" THEN <<Item(w, fault)>> ELSE Append(@, Item(w, fault))]
            /\ want' = [want EXCEPT ![i] = Append(@, w)]
Next == /\ Len(log) < Depth /\ UNCHANGED fault
        /\ \E w \in Things : log' = Append(log, w[1]) /\ (New(w) \/ \E i \in DOMAIN fig : On(i, w))
Spec == Init /\ [][Next]_vars
ReadsBack == \A i \in DOMAIN want : Len(fig[i]) = Len(want[i]) /\ \A k \in DOMAIN want[i] : Says(fig[i][k], want[i][k])
MCTables == {<<<<1, 2>>, <<3, 4>>>>, <<<<1, 2, 3>>, <<4, 5, 6>>>>, <<<<7>>, <<8>>>>}
MCCounts == {<<1, 2, 2>>, <<3>>, <<1, 3, 2>>}
-----------------------------------------------------------------------------
\* histories of drawings for the real code
Kinds == {"rdf", "cf", "msd", "debye", "gauss", "voxels", "pmft", "cluster", "hexatic", "diffraction", "image", "box", "box", "system", "lines", "bars", "clusters", "hist", "png"}
GNext == /\ Len(log) < Depth /\ UNCHANGED <<fig, want, fault>>
         /\ \E c \in {RandomElement([what : Kinds, given : BOOLEAN, k : 1..1000])} : log' = Append(log, c)
         /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GenSpec == Init /\ [][GNext]_vars
=============================================================================
