----------------------------- MODULE FBufferMC -----------------------------
EXTENDS Integers
VARIABLES box, v, buf
O == [L |-> <<2,4,2>>, bx |-> 0, cx |-> 0, cy |-> 0, d |-> 3, per |-> <<TRUE,TRUE,TRUE>>, ex |-> TRUE]
MCBoxes == {O, [O EXCEPT !.bx = 3, !.cx = -1, !.cy = 2], [O EXCEPT !.L = <<4,3,1>>, !.d = 2], [O EXCEPT !.L = <<3,4,1>>, !.d = 2, !.bx = -5]}
MCBufs == {<<0,0,0>>, <<1,1,1>>, <<3,0,2>>, <<2,5,0>>, <<6,6,3>>, <<7,4,6>>}
INSTANCE FBuffer WITH Boxes <- MCBoxes, Bufs <- MCBufs
=============================================================================
