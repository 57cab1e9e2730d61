------------------------------ MODULE Figures ------------------------------
(***************************************************************************)
(* What figures show. A figure is a sequence of axes; on axes are upright     *)
(* lines, spans, curves, points, crosses and cells. Times are in ms, places     *)
(* in 1e-6 degrees and thousandths of a unit of depth.                           *)
(*                                                                              *)
(* The trigger summary shows both coalescence traces, the threshold on the one     *)
(* that is triggered on, every event as an upright line at its time within its       *)
(* marginal window, flanked by what keeps others away from it, at its place on the     *)
(* map and both sections, beside the stations; and how many stations were available.     *)
(* The event summary shows the origin time, a cross at the hypocentre, the slices of       *)
(* the marginalised map through its highest node and modelled arrivals at every station.     *)
(* The pick summary of a station shows modelled and picked times within their windows.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AbsF(x) == IF x < 0 THEN -x ELSE x
Close(a, b, d) == AbsF(a - b) <= d
RangeF(q) == {q[i] : i \in DOMAIN q}
Near2(p, q, d) == Close(p[1], q[1], d) /\ Close(p[2], q[2], d)

(* an event's windows: what keeps off, the marginal window, what keeps off *)
Windows(ev, mw) == {<<ev.a, ev.c - mw>>, <<ev.c - mw, ev.c + mw>>, <<ev.c + mw, ev.b>>}
Whole(ev) == {<<ev.a, ev.b>>}
(* a place seen along the axes d *)
Seen(p, d) == <<p[d[1]], p[d[2]]>>
Views == {<<1, 2>>, <<1, 3>>, <<3, 2>>}
(* a path around the box from a to b *)
Corners(a, b) == {<<x, y>> : x \in {a[1], b[1]}, y \in {a[2], b[2]}}
IsBox(p, a, b) == /\ Len(p) = 5 /\ Near2(p[1], p[5], 0)
                  /\ \A q \in Corners(a, b) : \E i \in 1..4 : Near2(p[i], q, 1)
                  /\ \A i \in 1..4 : (p[i][1] = p[i + 1][1]) # (p[i][2] = p[i + 1][2])
(* the value of a staircase at time t: what was set last *)
StepAt(st, t) == LET before == {i \in DOMAIN st.t : st.t[i] <= t}
                 IN IF before = {} THEN -1 ELSE st.y[CHOOSE i \in before : \A j \in before : j <= i]
ShowsAll(spans, want) == \A s \in want : \E p \in spans : Near2(p, s, 1)
Explained(spans, want) == \A p \in spans : \E s \in want : Near2(p, s, 1)
(* the cells of a map m (a function on 1..nx, 1..ny, 1..nz) through node q, along d *)
Slice(m, q, d) == LET other == CHOOSE k \in 1..3 : k \notin {d[1], d[2]}
                  IN {<<i[d[1]], i[d[2]], m[i]>> : i \in {i \in DOMAIN m : i[other] = q[other]}}
=============================================================================
