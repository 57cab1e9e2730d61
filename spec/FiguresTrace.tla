--------------------------- MODULE FiguresTrace ---------------------------
(***************************************************************************)
(* "trigger" the summary of a day: the events and the marks on every axis.      *)
(* "event"   the summary of a located event.                                     *)
(* "pick"    the picks of a station.                                              *)
(* "amp"     amplitudes with distance.                                             *)
(* "end"     the figures expected and made, and the other files with and without.   *)
(***************************************************************************)
EXTENDS Figures, TraceKit
VARIABLES c, l, s, v
SameSeq(p, q, d) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Close(p[i], q[i], d)
HasNear(S, x, d) == \E y \in S : Close(x, y, d)
PointNear(S, p, d) == \E y \in S : Near2(p, y, d)
Place(x) == <<x.x, x.y, x.z>>
TriggerReject(k, e) ==
  LET ax == e.axes
      D == {i \in DOMAIN ax : ax[i].date}
      Is(ln, y) == SameSeq(ln.t, e.t, 1) /\ SameSeq(ln.y, y, 1)
      Shows(y) == {i \in D : \E ln \in RangeF(ax[i].lines) : Is(ln, y)}
      C == Shows(e.coa)
      N == Shows(e.coan)
      F == IF e.norm THEN N ELSE C
      Thr(i) == \E ln \in RangeF(ax[i].lines) : \A q \in DOMAIN ln.y : Close(ln.y[q], e.thr, 1)
      evs == RangeF(e.events)
      gone == RangeF(e.gone)
      wantS == UNION {Windows(x, e.mw) : x \in evs} \cup UNION {Whole(x) : x \in gone}
      wantV == {x.c : x \in evs \cup gone}
      maps == {i \in DOMAIN ax : ~ax[i].date /\ <<ax[i].d[1], ax[i].d[2]>> \in Views}
      Map(d) == {i \in maps : <<ax[i].d[1], ax[i].d[2]>> = d}
      places == {Place(x) : x \in evs \cup gone} \cup {x : x \in RangeF(e.stations)}
      Reads(st, p) == st.t # <<>> /\ st.t[Len(st.t)] >= e.until - 1000 /\ \A q \in DOMAIN e.ava : StepAt(st, e.ava[q].t) = e.ava[q].n[p]
      nph == IF e.ava = <<>> THEN 0 ELSE Len(e.ava[1].n)
  IN CASE e.t # <<>> /\ (C = {} \/ N = {}) -> "trace-not-shown"
       [] e.t # <<>> /\ e.thr >= 0 /\ ~\E i \in F : Thr(i) -> "threshold-not-shown"
       [] \E i \in C \cup N : ~\A t \in wantV : HasNear(RangeF(ax[i].v), t, 1) -> "event-not-marked"
       [] \E i \in C \cup N : ~ShowsAll(RangeF(ax[i].span), wantS) -> "window-not-shown"
       [] ~e.region /\ \E i \in C \cup N : ~Explained(RangeF(ax[i].span), wantS)
             \/ ~\A t \in RangeF(ax[i].v) : HasNear(wantV, t, 1) -> "mark-of-no-event"
       [] \E d \in Views : Map(d) = {} -> "view-missing"
       [] \E d \in Views : ~\E i \in Map(d) : \A p \in places : PointNear(RangeF(ax[i].pts), Seen(p, d), 2) -> "place-not-shown"
       [] \E d \in Views, i \in maps : <<ax[i].d[1], ax[i].d[2]>> = d /\ ~e.region
             /\ \/ Len(ax[i].pts) < Len(e.events) + Len(e.stations)
                \/ Len(ax[i].pts) > Len(e.events) + Len(e.stations) + Len(e.others)
                \/ \E p \in RangeF(ax[i].pts) : ~PointNear({Seen(x, d) : x \in places \cup RangeF(e.others)}, p, 2)
             -> "place-of-nothing"
       [] e.box # <<>> /\ \E d \in Views : ~\E i \in Map(d) : \E p \in RangeF(ax[i].path) :
             IsBox(p, Seen(e.box[1], d), Seen(e.box[2], d)) -> "region-not-shown"
       [] \E o \in RangeF(e.outlines) : ~\E i \in Map(<<1, 2>>) : \E p \in RangeF(ax[i].path) :
             Len(p) = Len(o) /\ \A q \in DOMAIN p : Near2(p[q], o[q], 1) -> "outline-not-shown"
       [] e.ava # <<>> /\ ~\E i \in D :
             LET st == RangeF(ax[i].steps)
             IN \/ \A p \in 1..nph : \E x \in st : Reads(x, p)
                \/ nph = 2 /\ e.same /\ \E x \in st : Reads(x, 1) -> "availability-not-shown"
       [] ~e.counted -> "count-not-told"
       [] OTHER -> ""
EventReject(k, e) ==
  LET ax == e.axes
      h == <<e.x, e.y, e.z>>
      Cross(d) == \E i \in DOMAIN ax : ~ax[i].date /\ <<ax[i].d[1], ax[i].d[2]>> = d
                     /\ \E p \in RangeF(ax[i].cross) : Near2(p, Seen(h, d), 2)
      Shown(sl) == \E m \in RangeF(e.meshes) : m.d = sl.d /\ Len(m.c) = Len(sl.c)
                     /\ \A q \in DOMAIN m.c : m.c[q][1] = sl.c[q][1] /\ m.c[q][2] = sl.c[q][2]
                                              /\ Close(m.c[q][3], sl.c[q][3], 1)
      phs == {a[1] : a \in RangeF(e.arr)}
      Of(ph) == {<<a[2], a[3]>> : a \in {a \in RangeF(e.arr) : a[1] = ph}}
      HasArr(g, a) == \E p \in RangeF(g.pts) : p[2] = a[1] /\ Close(p[1], a[2], 2)
      Gives(g, ph) == /\ e.all => \A a \in Of(ph) : HasArr(g, a)
                      /\ \A p \in RangeF(g.pts) : \E a \in Of(ph) : p[2] = a[1] /\ Close(p[1], a[2], 2)
      (* the stations of the gather are those of the map *)
      named == UNION {{p[2] : p \in RangeF(g.pts)} : g \in RangeF(e.gather)}
      seen == {<<x[2], x[3], x[4]>> : x \in {x \in RangeF(e.places) : x[1] \in named}}
  IN CASE Cardinality({i \in DOMAIN ax : ax[i].date /\ HasNear(RangeF(ax[i].v), e.ot, 1)}) < 2 -> "origin-time-not-shown"
       [] \E d \in Views : ~Cross(d) -> "hypocentre-not-shown"
       [] \E o \in RangeF(e.outlines) : ~\E i \in DOMAIN ax : \E p \in RangeF(ax[i].path) :
             /\ <<ax[i].d[1], ax[i].d[2]>> = <<1, 2>>
             /\ Len(p) = Len(o) /\ \A q \in DOMAIN p : Near2(p[q], o[q], 1) -> "outline-not-shown"
       [] e.ell # <<>> /\ \E d \in Views : ~\E i \in DOMAIN ax : \E p \in RangeF(ax[i].ell) :
             /\ <<ax[i].d[1], ax[i].d[2]>> = d
             /\ Near2(<<p[1], p[2]>>, Seen(e.ell[1], d), 2)
             /\ \A j \in 1..2 : Close(p[j + 2], Seen(e.ell[2], d)[j], 60 + p[j + 2] \div 100) -> "uncertainty-not-shown"
       [] \E sl \in RangeF(e.slices) : ~Shown(sl) -> "slice"
       [] \E ph \in phs : ~\E g \in RangeF(e.gather) : g.pts # <<>> /\ Gives(g, ph) -> "arrivals"
       [] \E g \in RangeF(e.gather) : ~\E ph \in phs : Gives(g, ph) -> "arrival-of-nothing"
       [] \E i \in DOMAIN ax : ~ax[i].date /\ <<ax[i].d[1], ax[i].d[2]>> \in Views /\ ax[i].pts # <<>>
             /\ \/ Len(ax[i].pts) # Cardinality(seen)
                \/ \E x \in seen : ~PointNear(RangeF(ax[i].pts), Seen(x, ax[i].d), 2) -> "stations-of-the-map"
       [] \E d \in Views : ~\E i \in DOMAIN ax : ~ax[i].date /\ <<ax[i].d[1], ax[i].d[2]>> = d
             /\ Len(ax[i].pts) = Cardinality(seen) -> "stations-missing"
       [] ~\E i \in DOMAIN ax : ax[i].date /\ \E p \in RangeF(ax[i].peaks) : Close(p[1], e.ot, 25) /\ Close(p[2], e.coa, 2 + e.coa \div 1000) -> "coalescence-trace"
       [] ~e.named -> "event-not-named"
       [] ~e.told -> "magnitude"
       [] OTHER -> ""
PickReject(k, e) ==
  LET D == {i \in DOMAIN e.axes : e.axes[i].date}
      V == UNION {RangeF(e.axes[i].v) : i \in D}
      S == UNION {RangeF(e.axes[i].span) : i \in D}
      rows == RangeF(e.rows)
      Panels(ph) == {i \in D : e.axes[i].ph = ph}
      Marks(x) == {x.m} \cup (IF x.t = -1 THEN {} ELSE {x.t, x.t - x.h, x.t + x.h})
  IN CASE \E x \in rows : \E t \in Marks(x) : ~HasNear(V, t, 1) -> "time-not-shown"
       [] \E t \in V : ~HasNear({e.ot} \cup UNION {Marks(x) : x \in rows}, t, 1) -> "time-of-nothing"
       [] \E x \in rows : ~\E p \in S : \A t \in {x.m} \cup (IF x.t = -1 THEN {} ELSE {x.t}) : p[1] - 51 <= t /\ t <= p[2] + 51 -> "window"
       [] \E x \in rows : Panels(x.ph) = {} -> "no-panel"
       [] \E x \in rows : \E i \in Panels(x.ph) : ~HasNear(RangeF(e.axes[i].v), x.m, 1) -> "panel-of-another-phase"
       [] \E x \in rows : \E i \in Panels(x.ph) : e.axes[i].span # <<>>
             /\ ~\E p \in RangeF(e.axes[i].span) : p[1] - 51 <= x.m /\ x.m <= p[2] + 51 -> "window-of-another-phase"
       [] \E x \in rows : \E i \in Panels(x.ph) : ~(RangeF(e.axes[i].comp) \subseteq RangeF(e.may[x.ph])) -> "component"
       [] OTHER -> ""
(* magnitudes are printed with three significant figures *)
Printed(m) == AbsF(m) \div 180
AmpReject(k, e) ==
  LET R == e.rows
  IN CASE \E x \in RangeF(R) : ~PointNear(RangeF(e.pts), <<x.d, x.a>>, 30) -> "amplitude-not-shown"
       [] \E x \in RangeF(R) : ~PointNear(RangeF(e.noise), <<x.d, x.n>>, 30) -> "noise-not-shown"
       [] Len(e.pred) # 3 -> "predictions"
       [] \E i \in DOMAIN R : R[i].ml > -9000000 /\ ~Close(e.pred[2][i], e.ml - R[i].ml + R[i].a, 60 + Printed(e.ml) + Printed(R[i].ml)) -> "prediction"
       [] \E i \in DOMAIN R : ~Close(e.pred[3][i] - e.pred[2][i], e.err, 30 + Printed(e.err))
                           \/ ~Close(e.pred[2][i] - e.pred[1][i], e.err, 30 + Printed(e.err)) -> "prediction-bounds"
       [] ~e.named -> "event-not-named"
       [] OTHER -> ""
EndReject(k, e) ==
  CASE ~(RangeF(e.want) \subseteq RangeF(e.made)) -> "figure-missing"
    [] RangeF(e.made) # RangeF(e.want) -> "figure-of-nothing"
    [] \E t \in RangeF(e.times) : t # 1 -> "figure-made-again"
    [] RangeF(e.keep) # RangeF(e.ref) -> "results-changed"
    [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) ==
  CASE e.e = "trigger" -> TriggerReject(k, e)
    [] e.e = "event" -> EventReject(k, e)
    [] e.e = "pick" -> PickReject(k, e)
    [] e.e = "amp" -> AmpReject(k, e)
    [] e.e = "end" -> EndReject(k, e)
    [] OTHER -> "unknown-event"
TStep(k, st, e) == 0
CaseAt(j) == Cases[j]
RT == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == RT!Init
TNext == RT!Next
=============================================================================
