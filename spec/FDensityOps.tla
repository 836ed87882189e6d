---------------------------- MODULE FDensityOps ----------------------------
EXTENDS Lat, FFix, FReal, TLC
\* contribution of a neighbour at distance d (all in the same unit) is Ramp / RampDen
RampDen(S) == IF S = 0 THEN 1 ELSE 2*S
Ramp(d, R, S) == IF 2*d < 2*R - S THEN RampDen(S) ELSE IF 2*d < 2*R + S THEN 2*R + S - 2*d ELSE 0
=============================================================================
