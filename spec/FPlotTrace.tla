------------------------------ MODULE FPlotTrace ------------------------------
(* Recorded drawings: every event is one picture of a result, with what can be read back from the
   axes.  Axes are numbered; before/after count the artists on the axes that were given.        *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
G == INSTANCE FPlot WITH Tables <- {}, Counts <- {}, Depth <- 0, Faults <- {}, fig <- 0, want <- 0, log <- 0, fault <- 0
Near1(x, y) == Len(x) = Len(y) /\ \A k \in DOMAIN x : x[k] - y[k] \in -1..1
What(e) ==
  CASE e.kind = "line" -> If(Near1(e.x, e.wx) /\ Near1(e.y, e.wy), "line")
    [] e.kind = "image" -> If(G!ImageOf(e.img, e.upper, e.A), "image") \cup If(Near1(e.ext, e.wext), "extent of the image")
    [] e.kind = "rows" -> If(e.img = e.A, "image") \cup If(Near1(e.ext, e.wext), "extent of the image")
    [] e.kind = "pixels" -> If(G!PixelsOf(e.pix, e.A, e.lo, e.hi), "pixels")
    [] e.kind = "bars" -> If(G!BarsOf(e.bars, e.kc, e.n), "bars")
    [] e.kind = "hist" -> If(G!HistOf(e.bars, e.vals), "histogram")
    [] e.kind = "box" -> If(G!BoxOf(e.segs, e.a, e.im), "edges of the box") \cup If(e.styled, "style of the edges") \cup If(e.title = e.wtitle, "title")
    [] e.kind = "system" -> If(G!BoxOf(e.segs, e.a, e.im), "edges of the box") \cup If(e.pts = e.P, "points") \cup If(e.title = e.wtitle, "title")
    [] e.kind = "png" -> If(e.png = e.wpng, "png")
    [] OTHER -> {"unknown picture"}
Verdict(e) ==
  IF e.exc # "" THEN {"rejected: " \o e.exc}
  ELSE What(e) \cup If(e.given => (e.same /\ e.kept), "drawn on the axes given") \cup If(~e.given => e.fresh, "drawn on new axes")
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ broken' = Verdict(T[ep].ev[line + 1])
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
