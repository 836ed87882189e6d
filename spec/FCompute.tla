------------------------------ MODULE FCompute ------------------------------
(* The life of freud's analysis objects (K01-K04): construct, compute on one of several
   inputs (passed in one of several equivalent representations), rejected compute, read,
   hold a result, scribble over the inputs afterwards, delete.

   The abstract state says, per object, whether and from which input results are available;
   a result that somebody holds is the value it had when it was read.  This module is the
   abstract machine (used for generating histories and for judging recorded ones);
   FComputeMC refines it with storage cells.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* ---- abstract machine over one record [st, in] per object --------------------------
Dead == [st |-> "none", in |-> 0]
Fresh == [st |-> "new", in |-> 0]

\* After(a, c, ok): the object's abstract state after command c, ok: the call was accepted
After(a, c, ok) ==
  CASE c.op = "new"  -> Fresh
    [] c.op = "comp" -> IF ok THEN [st |-> "ok", in |-> c.i]
                        ELSE IF a.st = "new" THEN a ELSE [st |-> "unknown", in |-> 0]
    [] c.op = "fail" -> IF ok THEN [st |-> "unknown", in |-> 0]
                        ELSE IF a.st = "new" THEN a ELSE [st |-> "unknown", in |-> 0]
    [] c.op = "del"  -> Dead
    [] OTHER -> a

Alive(a) == a.st # "none"
Available(a) == a.st = "ok"            \* results must be readable
Unavailable(a) == a.st = "new"         \* results must raise
=============================================================================
