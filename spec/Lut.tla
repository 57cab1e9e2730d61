---------------------------------- MODULE Lut ----------------------------------
(***************************************************************************)
(* Lookup tables. A table is a view of a base grid: node i (a triple, from   *)
(* <<0,0,0>>) of the view is node off + step * i of the base grid, and each  *)
(* station it serves refers to the base table the traveltimes came from.     *)
(*   view == [base, off, step, n, st, open]                                 *)
(*   st   a sequence of <<station, source>>                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Dim == 1..3
CeilDiv(a, b) == (a + b - 1) \div b
Flat(i, n) == (i[1] * n[2] + i[2]) * n[3] + i[3]
Unflat(f, n) == <<f \div (n[2] * n[3]), (f \div n[3]) % n[2], f % n[3]>>
Count(n) == n[1] * n[2] * n[3]
Inside(i, n) == \A d \in Dim : 0 <= i[d] /\ i[d] < n[d]

\* decimation by df: as many nodes as fit when the first is kept, centred
DecN(n, df) == [d \in Dim |-> 1 + (n[d] - 1) \div df[d]]
DecOff(n, df) == [d \in Dim |-> (n[d] - df[d] * (DecN(n, df)[d] - 1) - 1) \div 2]
Decimated(w, df) ==
  [w EXCEPT !.off = [d \in Dim |-> w.off[d] + w.step[d] * DecOff(w.n, df)[d]],
            !.step = [d \in Dim |-> w.step[d] * df[d]],
            !.n = DecN(w.n, df)]
\* the base node a view's node stands for
Place(w, i) == [d \in Dim |-> w.off[d] + w.step[d] * i[d]]

SameGrid(a, b) == a.base = b.base /\ a.off = b.off /\ a.step = b.step /\ a.n = b.n
Stations(w) == {w.st[i][1] : i \in DOMAIN w.st}
Combined(a, b) == [a EXCEPT !.st = a.st \o SelectSeq(b.st, LAMBDA x : x[1] \notin Stations(a))]
=============================================================================
