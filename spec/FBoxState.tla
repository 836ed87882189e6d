------------------------------ MODULE FBoxState ------------------------------
(* The mutable description of a freud Box (B05): every constructor, conversion, setter
   and scaling as a transition.  Lengths are integers (units of 1/2), tilts integers in
   quarters.  A command the library must reject leaves the box as it was. *)
EXTENDS Lat, TLC, Json

AllPer == <<TRUE, TRUE, TRUE>>
Mk(L, t, d, per) == [L |-> IF d = 2 THEN <<L[1], L[2], 0>> ELSE L, t |-> t, d |-> d, per |-> per]
Degenerate(s) == \E i \in (IF s.d = 2 THEN 1..2 ELSE 1..3) : s.L[i] = 0
Flat(s) == [s EXCEPT !.t = IF s.d = 2 THEN <<s.t[1], 0, 0>> ELSE s.t]
Ok(s) == [ok |-> TRUE, s |-> s]
Err(s) == [ok |-> FALSE, s |-> s]

\* Apply(s, c): the box after command c on box s, and whether c is accepted
Apply(s, c) ==
  CASE c.op = "new" ->     \* Box(Lx, Ly, Lz, xy, xz, yz, is2D)
         IF c.L[1] = 0 \/ c.L[2] = 0 \/ (c.d = 3 /\ c.L[3] = 0) THEN Err(s)
         ELSE Ok(Mk(c.L, c.t, c.d, AllPer))
    [] c.op = "infer" ->   \* Box(Lx, Ly, Lz) : dimension inferred from Lz
         Ok(Mk(c.L, <<0,0,0>>, IF c.L[3] = 0 THEN 2 ELSE 3, AllPer))
    [] c.op = "cube" -> Ok(Mk(<<c.k, c.k, c.k>>, <<0,0,0>>, 3, AllPer))
    [] c.op = "square" -> Ok(Mk(<<c.k, c.k, 0>>, <<0,0,0>>, 2, AllPer))
    [] c.op = "L" -> Ok([s EXCEPT !.L = IF s.d = 2 THEN <<c.L[1], c.L[2], 0>> ELSE c.L])
    [] c.op = "Lscalar" -> Ok([s EXCEPT !.L = <<c.k, c.k, IF s.d = 2 THEN 0 ELSE c.k>>])
    [] c.op = "Li" -> Ok([s EXCEPT !.L[c.i] = IF s.d = 2 /\ c.i = 3 THEN 0 ELSE c.k])
    [] c.op = "ti" -> Ok([s EXCEPT !.t[c.i] = c.k])
    [] c.op = "dim" -> Ok([s EXCEPT !.d = c.d, !.L[3] = IF c.d = 2 THEN 0 ELSE @])
    [] c.op = "per" -> Ok([s EXCEPT !.per = c.per])
    [] c.op = "perall" -> Ok([s EXCEPT !.per = <<c.p, c.p, c.p>>])
    [] c.op = "peri" -> Ok([s EXCEPT !.per[c.i] = c.p])
    [] c.op = "mul" ->     \* box * (num/den), num <= 0 is rejected
         IF c.num <= 0 \/ Degenerate(s) THEN Err(s)
         ELSE Ok([s EXCEPT !.L = <<(@[1]*c.num) \div c.den, (@[2]*c.num) \div c.den, (@[3]*c.num) \div c.den>>])
    [] c.op = "from" ->    \* rebuild through a conversion
         IF Degenerate(s) THEN Err(s) ELSE
         (CASE c.form = "box" -> Ok(s)
           [] c.form \in {"dict", "attrs", "params"} -> Ok([s EXCEPT !.per = AllPer])
           [] c.form \in {"matrix", "frommatrix", "rotmatrix", "angles"} -> Ok([Flat(s) EXCEPT !.per = AllPer])
           [] c.form = "seq3" -> Ok([s EXCEPT !.t = <<0,0,0>>, !.per = AllPer]))
    [] c.op = "bad" -> Err(s)   \* one of the specifications that must be rejected
    [] OTHER -> Err(s)

Volume(s) == IF s.d = 2 THEN s.L[1]*s.L[2] ELSE s.L[1]*s.L[2]*s.L[3]
\* 4 x lattice matrix (columns are the lattice vectors)
Matrix4(s) == << <<4*s.L[1], s.t[1]*s.L[2], s.t[2]*s.L[3]>>,
                 <<0, 4*s.L[2], s.t[3]*s.L[3]>>, <<0, 0, 4*s.L[3]>> >>
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
\* 8 x the absolute position of the fractional vector (f/2): (f - 1) . A / 2
Abs8(s, f) == LET m == Matrix4(s)
                  g == <<f[1]-1, f[2]-1, IF s.d = 2 THEN 0 ELSE f[3]-1>>
              IN [i \in 1..3 |-> m[i][1]*g[1] + m[i][2]*g[2] + m[i][3]*g[3]]
Cubic(s) == s.d = 3 /\ s.L[1] = s.L[2] /\ s.L[2] = s.L[3] /\ s.t = <<0,0,0>>
------------------------------------------------------------------------------
CONSTANTS Lens, Tilts, Depth
VARIABLES hb, h
MCTilts == {-2, 1}
GenTilts == {-6, -2, 0, 1, 4}
Vec(S) == { <<a, b, c>> : a \in S, b \in S, c \in S }
SomeL == {<<4,8,2>>, <<2,2,2>>, <<8,4,16>>, <<4,4,0>>}
SomeT == {<<0,0,0>>, <<1,-2,3>>, <<4,0,0>>, <<-6,2,1>>}
Cmds ==
     { [op |-> "new", L |-> L, t |-> t, d |-> d] : L \in SomeL \cup {<<0,4,4>>, <<4,0,0>>}, t \in SomeT, d \in {2,3} }
  \cup { [op |-> "infer", L |-> L] : L \in SomeL }
  \cup { [op |-> o, k |-> k] : o \in {"cube", "square", "Lscalar"}, k \in Lens }
  \cup { [op |-> "L", L |-> L] : L \in SomeL \ {<<4,4,0>>} }
  \cup { [op |-> "Li", i |-> i, k |-> k] : i \in 1..3, k \in Lens }
  \cup { [op |-> "ti", i |-> i, k |-> k] : i \in 1..3, k \in Tilts }
  \cup { [op |-> "dim", d |-> d] : d \in {2,3} }
  \cup { [op |-> "per", per |-> p] : p \in {<<TRUE,FALSE,TRUE>>, <<FALSE,TRUE,TRUE>>, <<TRUE,TRUE,FALSE>>} }
  \cup { [op |-> "perall", p |-> p] : p \in BOOLEAN }
  \cup { [op |-> "peri", i |-> i, p |-> p] : i \in 1..3, p \in BOOLEAN }
  \cup { [op |-> "mul", num |-> n, den |-> d] : n \in {1, 2, 0, -1}, d \in {1, 2} }
  \cup { [op |-> "from", form |-> f] : f \in {"box","dict","attrs","params","matrix","frommatrix","rotmatrix","angles","seq3"} }
  \cup { [op |-> "bad", k |-> k] : k \in 1..8 }
Bounded(s) == \A i \in 1..3 : s.L[i] <= 16 /\ (s.L[i] = 0 \/ s.L[i] >= 2) 
Can(s, c) == /\ Bounded(Apply(s, c).s)
             /\ (c.op = "mul" => \A i \in 1..3 : (s.L[i]*c.num) % c.den = 0)
             /\ (c.op = "mul" /\ Degenerate(s) => FALSE)
             /\ (c.op = "from" /\ Degenerate(s) => FALSE)
Init == hb = Mk(<<4,4,4>>, <<0,0,0>>, 3, AllPer) /\ h = <<>>
Step(c) == Can(hb, c) /\ hb' = Apply(hb, c).s
MCNext == \E c \in Cmds : Step(c) /\ UNCHANGED h
MCSpec == Init /\ [][MCNext]_<<hb, h>>
\* random histories: pick the operation first, so that every kind is equally frequent
Ops == ({ c.op : c \in Cmds } \ {"infer", "cube", "square"}) \cup {"+box", "+copy", "+per"}
InOp(x, o) == CASE o = "+copy" -> x.op \in {"mul", "from"}
                [] o = "+box" -> x.op = "from" /\ x.form = "box"
                [] o = "+per"  -> x.op \in {"per", "peri"}
                [] o = "new" -> x.op \in {"new", "infer", "cube", "square"}
                [] OTHER -> x.op = o
Poss(o) == { x \in Cmds : InOp(x, o) /\ Can(hb, x) }
GenNext == \E o \in {RandomElement({ p \in Ops : Poss(p) # {} })} : \E c \in {RandomElement(Poss(o))} :
              /\ Len(h) < Depth /\ Step(c) /\ h' = Append(h, c)
              /\ (Len(h') = Depth => PrintT(<<"BEH", ToJson(h')>>))
GenSpec == Init /\ [][GenNext]_<<hb, h>>

TypeOK == /\ hb.d \in {2,3} /\ (hb.d = 2 => hb.L[3] = 0)
          /\ \A i \in 1..2 : hb.L[i] > 0
\* corners of the box: fractional 0 and 1 are the opposite corners, 1/2 the origin
Centered == /\ Abs8(hb, <<1,1,1>>) = Zero
            /\ Abs8(hb, <<0,0,0>>) = Neg(Abs8(hb, <<2,2,2>>))
            /\ \A j \in 1..3 : LET f == [i \in 1..3 |-> IF i = j THEN 2 ELSE 1] IN
                   Abs8(hb, f) = IF j = 3 /\ hb.d = 2 THEN Zero ELSE Col(Matrix4(hb), j)
\* every full conversion denotes the same box
RoundTrips == ~Degenerate(hb) =>
   /\ Apply(hb, [op |-> "from", form |-> "box"]).s = hb
   /\ Apply(hb, [op |-> "from", form |-> "dict"]).s.L = hb.L
   /\ Matrix4(Apply(hb, [op |-> "from", form |-> "matrix"]).s) = Matrix4(hb)
BoxInv == TypeOK /\ Centered /\ RoundTrips
=============================================================================
