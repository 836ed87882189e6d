---------------------------- MODULE FDiffraction ----------------------------
(* Structure factors (D04, D05).

   Design model: a set of points binned on a G x G grid evolves by translations of all points,
   lattice translations of one point, and reordering; the power spectrum must not notice any of
   them, must be centrosymmetric, and must be the squared total weight at zero frequency. *)
EXTENDS FDiffractionOps
CONSTANTS G, NP
VARIABLES pts, w, pow, steps
vars == <<pts, w, pow, steps>>
Freqs == {<<a, b>> : a, b \in 0..G-1}
Uni == TLCEval(Unit(G))
Spectrum(p, v) == TLCEval([f \in Freqs |-> Power(G, Uni, p, v, f)])
Init == /\ pts \in [1..NP -> {<<a, b>> : a, b \in 0..G-1}] /\ w \in [1..NP -> {1, 2}]
        /\ pow = Spectrum(pts, w) /\ steps = 0
Shift(d) == pts' = [i \in 1..NP |-> <<pts[i][1] + d[1], pts[i][2] + d[2]>>] /\ UNCHANGED <<w, pow>>
Relattice(i, d) == pts' = [pts EXCEPT ![i] = <<@[1] + G*d[1], @[2] + G*d[2]>>] /\ UNCHANGED <<w, pow>>
Reverse == pts' = [i \in 1..NP |-> pts[NP+1-i]] /\ w' = [i \in 1..NP |-> w[NP+1-i]] /\ UNCHANGED pow
Next == /\ steps < 2 /\ steps' = steps + 1
        /\ (\E d \in {<<1, 0>>, <<0, 1>>} : Shift(d)) \/ (\E i \in 1..NP, d \in {<<1, 0>>, <<0, -1>>} : Relattice(i, d)) \/ Reverse
Spec == Init /\ [][Next]_vars
Inv == /\ pow = Spectrum(pts, w)
       /\ \A f \in Freqs : pow[f] = pow[<<(G - f[1]) % G, (G - f[2]) % G>>]
       /\ pow[<<0, 0>>] = RInt(SumSeq(w) * SumSeq(w))
\* the special functions at known arguments (1 turn = 2 pi)
ASSUME /\ Sinc(0) = ONE /\ Abs(Sinc(TURN \div 2)) <= 4 /\ Abs(Sinc(TURN \div 4) - 10430) <= 8
       /\ Abs(J0(0, 16) - ONE) <= 4
       /\ Abs(J0(25085, 16)) <= 16                \* first zero, x = 2.404826
       /\ Abs(J0(57578, 16)) <= 16                \* second zero, x = 5.520078
       /\ Abs(J0(TURN, 16) - 3610) <= 16          \* J0(2 pi) = 0.220277
=============================================================================
