------------------------------- MODULE Trigger -------------------------------
(***************************************************************************)
(* The trigger stage: scanning the coalescence trace for candidates,        *)
(* refining (merging) candidates into events, and selecting the events of a *)
(* batch. The operators here are the actions' effects; TriggerMC.tla runs   *)
(* them as a state machine over every small trace, TriggerTrace.tla runs    *)
(* them against recorded executions of Trigger.trigger.                     *)
(*                                                                          *)
(* A sample is [i, c, n, x, y, z]: index on the sample grid, coalescence,   *)
(* normalised coalescence (1e-5), position. A trace is a sequence of        *)
(* samples ordered by index; samples not listed are quiet (below any        *)
(* threshold). Times are in milliseconds. Parameters p:                     *)
(*   mw, mei  marginal window, minimum event interval                       *)
(*   dt, off  sampling interval, offset of the sampling grid                *)
(*   norm     trigger on the normalised trace                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Val(p, sm) == IF p.norm THEN sm.n ELSE sm.c
T(p, sm) == p.off + sm.i * p.dt

-----------------------------------------------------------------------------
(* Candidates *)
Candidate(p, f, l, k) ==
  [t |-> T(p, k), trig |-> Val(p, k), c |-> k.c, n |-> k.n,
   x |-> k.x, y |-> k.y, z |-> k.z,
   min |-> IF T(p, k) - T(p, f) < p.mw THEN T(p, k) - p.mei
                                       ELSE T(p, f) - (p.mei - p.mw),
   max |-> IF T(p, l) - T(p, k) < p.mw THEN T(p, k) + p.mei
                                       ELSE T(p, l) + (p.mei - p.mw)]

Scan0 == [run |-> <<>>, cands |-> <<>>]   \* run: <<first, last, peak>> when open

CloseRun(p, st) ==
  IF st.run = <<>> THEN st
  ELSE [run |-> <<>>,
        cands |-> Append(st.cands, Candidate(p, st.run[1], st.run[2], st.run[3]))]

ScanOne(p, st, sm, thr) ==
  IF Val(p, sm) >= thr
  THEN IF st.run # <<>> /\ sm.i = st.run[2].i + 1
       THEN [st EXCEPT !.run = <<@[1], sm, IF sm.c > @[3].c THEN sm ELSE @[3]>>]
       ELSE [CloseRun(p, st) EXCEPT !.run = <<sm, sm, sm>>]
  ELSE CloseRun(p, st)

\* Thr is a function from index to threshold
Candidates(p, q, thr) ==
  CloseRun(p, FoldLeft(LAMBDA st, sm : ScanOne(p, st, sm, thr[sm.i]), Scan0, q)).cands

-----------------------------------------------------------------------------
(* Refinement: one pass over neighbours *)
Separate(p, a, b) == a.max < b.t - p.mw /\ b.min > a.t + p.mw

RefineOne(p, groups, cand) ==
  IF groups # <<>> /\ ~Separate(p, Last(Last(groups)), cand)
  THEN [groups EXCEPT ![Len(groups)] = Append(@, cand)]
  ELSE Append(groups, <<cand>>)

Best(g) == FoldLeft(LAMBDA b, k : IF k.trig > b.trig THEN k ELSE b, g[1], g)
MinOf(q) == FoldLeft(LAMBDA b, k : IF k < b THEN k ELSE b, q[1], q)
MaxOf(q) == FoldLeft(LAMBDA b, k : IF k > b THEN k ELSE b, q[1], q)

EventOf(g) == [Best(g) EXCEPT
                 !.min = MinOf([j \in 1..Len(g) |-> g[j].min]),
                 !.max = MaxOf([j \in 1..Len(g) |-> g[j].max])]

Groups(p, cands) == FoldLeft(LAMBDA gs, k : RefineOne(p, gs, k), <<>>, cands)
EventsOf(p, cands) == LET gs == Groups(p, cands) IN [j \in 1..Len(gs) |-> EventOf(gs[j])]

-----------------------------------------------------------------------------
(* Selection: [lo, hi] in ms, both included; region <<>> or six bounds *)
InRegion(r, e) ==
  r = <<>> \/ (/\ e.x >= r[1] /\ e.y >= r[2] /\ e.z >= r[3]
               /\ e.x <= r[4] /\ e.y <= r[5] /\ e.z <= r[6])
Selected(evs, lo, hi, r) ==
  SelectSeq(evs, LAMBDA e : e.t >= lo /\ e.t <= hi /\ InRegion(r, e))

-----------------------------------------------------------------------------
(* What the stage promises, independently of how it gets there *)
\* chains of candidates that reach each other
Near(p, a, b) == ~(a.max < b.t - p.mw /\ b.min > a.t + p.mw)
Ordered(evs) == \A j \in 1..(Len(evs) - 1) : evs[j].t < evs[j + 1].t
Separated(p, evs) == \A j, k \in 1..Len(evs) : j < k => evs[k].t - evs[j].t > p.mei
Reaches(p, evs) == \A j \in 1..Len(evs) :
                     evs[j].t - evs[j].min >= p.mei /\ evs[j].max - evs[j].t >= p.mei
Covered(p, q, thr, evs) ==
  \A j \in 1..Len(q) : Val(p, q[j]) >= thr[q[j].i] =>
     \E k \in 1..Len(evs) : evs[k].min <= T(p, q[j]) /\ T(p, q[j]) <= evs[k].max
FromSample(p, q, thr, evs) ==
  \A k \in 1..Len(evs) : \E j \in 1..Len(q) :
     /\ T(p, q[j]) = evs[k].t /\ Val(p, q[j]) = evs[k].trig /\ q[j].c = evs[k].c
     /\ Val(p, q[j]) >= thr[q[j].i]
\* windows of different events do not meet each other's peaks
WindowsApart(p, evs) == \A j, k \in 1..Len(evs) : j < k =>
     evs[j].max < evs[k].t - p.mw /\ evs[k].min > evs[j].t + p.mw
\* the one-pass merge is the transitive closure over all pairs
MergeIsClosure(p, cands, gs) ==
  \A j, k \in 1..Len(gs) : j # k =>
     \A a \in 1..Len(gs[j]), b \in 1..Len(gs[k]) :
        IF j < k THEN ~Near(p, gs[j][a], gs[k][b]) ELSE ~Near(p, gs[k][b], gs[j][a])

-----------------------------------------------------------------------------
(* Days: the pad is long enough when it covers the windows of two           *)
(* neighbouring events (established by TriggerDaysMC)                       *)
PadSuffices(p, pad, evs) == \A j \in 1..Len(evs) : 2 * (evs[j].max - evs[j].min) <= pad

-----------------------------------------------------------------------------
(* Thresholds. Values in 1e-5; multipliers in 1e-2. Twice a median is       *)
(* exact in integers. The static threshold is p.thr everywhere.             *)
Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)
TwiceMedian(q) == LET o == Sorted(q) n == Len(q)
                  IN IF n % 2 = 1 THEN 2 * o[(n + 1) \div 2]
                     ELSE o[n \div 2] + o[n \div 2 + 1]
=============================================================================
