---------------------------- MODULE TriggerTrace ----------------------------
(***************************************************************************)
(* Trace specification of Trigger.trigger. A case has                       *)
(*   q      the coalescence on disk, quarter units (see Trigger.tla)        *)
(*   days   the UTC days concerned: [d |-> day number, id |-> yyyymmdd]      *)
(*   ev     calls of trigger and what the run's event directory held        *)
(*          afterwards                                                      *)
(* The state is the content every event file must have: day -> "none" or    *)
(* the rows of the last call that processed the day.                        *)
(***************************************************************************)
EXTENDS Trigger, TraceKit
VARIABLES c, l, s, v

DayMs == 86400000
DayOf(t) == t \div DayMs

Slice(k, e, b) == SelectSeq(k.q, LAMBDA sm : /\ T(e.p, sm) >= b.lo - e.p.pad
                                             /\ T(e.p, sm) <= b.hi + e.p.pad)

\* a call is carried out UTC day by UTC day; the end is excluded if it is midnight
RECURSIVE BatchesFrom(_, _)
BatchesFrom(lo, end) ==
  IF lo >= end THEN <<>>
  ELSE LET next == (DayOf(lo) + 1) * DayMs
       IN <<[lo |-> lo, hi |-> Min2(next, end), day |-> DayOf(lo)]>> \o BatchesFrom(next, end)
\* a batch without any data on disk in its padded window stops the call
HasData(k, e, b) == \E g \in 1..Len(k.data) :
   /\ k.data[g][2] * e.p.dt + e.p.off >= b.lo - e.p.pad
   /\ k.data[g][1] * e.p.dt + e.p.off <= b.hi + e.p.pad
RECURSIVE Runnable(_, _, _)
Runnable(k, e, bs) == IF bs = <<>> \/ ~HasData(k, e, Head(bs)) THEN <<>>
                      ELSE <<Head(bs)>> \o Runnable(k, e, Tail(bs))
Batches(k, e) == Runnable(k, e, BatchesFrom(e.lo, e.hi))
Raised(k, e) == IF e.lo > e.hi THEN "TimeSpanException"
                ELSE IF Len(Batches(k, e)) < Len(BatchesFrom(e.lo, e.hi))
                     THEN "NoScanMseedDataException" ELSE ""
Key(e, b) == e.sub \o "/" \o ToString(b.day)

-----------------------------------------------------------------------------
\* per-sample decision "at or above threshold", method by method
Chunk(q, w, j) == LET k == (j - 1) \div w
                  IN SubSeq(q, k * w + 1, Min2((k + 1) * w, Len(q)))
ValsOf(p, q) == [j \in 1..Len(q) |-> Val(p, q[j])]

\* threshold functions give, per index, the smallest value (quarter units) that triggers
CeilDiv(a, b) == IF a <= 0 THEN -((-a) \div b) ELSE (a + b - 1) \div b
ChunkThr(p, vals) ==
  LET tm == TwiceMedian(vals)
  IN IF p.method = "median_ratio"
     THEN \* value >= mult * median, mult in halves:  4 v >= m tm
          CeilDiv(p.mult * tm, 4)
     ELSE LET td == TwiceMedian([j \in 1..Len(vals) |-> Abs(2 * vals[j] - tm)])
          IN \* 4 v - 2 tm >= 14826/20000 m td
             CeilDiv(CeilDiv(14826 * p.mult * td, 20000) + 2 * tm, 4)
NChunks(n, w) == (n + w - 1) \div w
Thresholds(p, q) ==
  IF p.method = "static" THEN [i \in RangeOf([j \in 1..Len(q) |-> q[j].i]) |-> p.thr]
  ELSE LET vals == ValsOf(p, q)
           ct == [k \in 1..NChunks(Len(q), p.win) |->
                    ChunkThr(p, SubSeq(vals, (k - 1) * p.win + 1, Min2(k * p.win, Len(q))))]
           i0 == q[1].i
       IN [i \in i0..(i0 + Len(q) - 1) |-> ct[((i - i0) \div p.win) + 1]]

-----------------------------------------------------------------------------
\* one batch of a call
BatchEvents(p, q) == EventsOf(p, Candidates(p, q, Thresholds(p, q)))
BatchRows(k, e, b) ==
  LET q == Slice(k, e, b)
  IN IF q = <<>> THEN <<>>
     ELSE SelectSeq(Selected(BatchEvents(e.p, q), b.lo, b.hi, e.region),
                    LAMBDA r : (b.hi % DayMs = 0) => r.t < b.hi)

\* 17-digit identifier: day and hhmmssmmm of the trigger time
Hms(ms) == (ms \div 3600000) * 10000000 + ((ms \div 60000) % 60) * 100000
           + ((ms \div 1000) % 60) * 1000 + (ms % 1000)
IdDay(k, t) == LET m == SelectSeq(k.days, LAMBDA d : d.d = DayOf(t))
               IN IF m = <<>> THEN 0 ELSE m[1].id

Quarter == 25000      \* a quarter in the 1e-5 units of the file

RowsMatch(k, p, rows, evs) ==
  CASE Len(rows) < Len(evs) -> "event-missing"
    [] Len(rows) > Len(evs) -> "event-invented"
    [] \E j \in 1..Len(evs) : rows[j].sub # 0 \/ rows[j].t # evs[j].t -> "event-time"
    [] \E j \in 1..Len(evs) : rows[j].trig # Quarter * evs[j].trig -> "trigger-value"
    [] \E j \in 1..Len(evs) : rows[j].c # Quarter * evs[j].c
                           \/ rows[j].n # Quarter * evs[j].n -> "coalescence-value"
    [] \E j \in 1..Len(evs) : <<rows[j].x, rows[j].y, rows[j].z>>
                           # <<evs[j].x, evs[j].y, evs[j].z>> -> "location"
    [] \E j \in 1..Len(evs) : rows[j].idday # IdDay(k, evs[j].t)
                           \/ rows[j].idms # Hms(evs[j].t % DayMs) -> "event-id"
    [] p.win_out /\ \E j \in 1..Len(evs) : rows[j].min # evs[j].min
                           \/ rows[j].max # evs[j].max -> "event-window"
    [] OTHER -> ""

\* what must hold of the listed rows whatever the scan and merge did
Promises(p, rows) ==
  CASE \E j \in 1..(Len(rows) - 1) : rows[j].t >= rows[j + 1].t -> "order"
    [] \E a, b \in 1..Len(rows) : a < b /\ rows[b].t - rows[a].t <= p.mei -> "separation"
    [] \E a, b \in 1..Len(rows) : a # b /\ rows[a].idday = rows[b].idday
                                  /\ rows[a].idms = rows[b].idms -> "duplicate-id"
    [] p.win_out /\ \E a \in 1..Len(rows) : ~(rows[a].min <= rows[a].t
                                  /\ rows[a].t <= rows[a].max) -> "outside-own-window"
    [] OTHER -> ""

BaseCols == <<"EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM">>
Cols(p) == IF p.win_out THEN BaseCols \o <<"MinTime", "MaxTime">> ELSE BaseCols

\* expected content after the call: batches processed in order
After(k, e, st) ==
  FoldLeft(LAMBDA f, b : [f EXCEPT ![Key(e, b)] = [rows |-> BatchRows(k, e, b), p |-> e.p]],
           st, Batches(k, e))

None == [rows |-> <<>>, p |-> [none |-> TRUE]]
TStart(k) == [d \in {k.files[j] : j \in 1..Len(k.files)} |-> None]

\* the days of a call together list the events of the undivided trace, once each
AcrossDays(k, e) ==
  (e.whole /\ Raised(k, e) = "") =>
    LET all == EventsOf(e.p, Candidates(e.p, k.q, Thresholds(e.p, k.q)))
        want == SelectSeq(Selected(all, e.lo, e.hi, e.region),
                          LAMBDA r : (e.hi % DayMs = 0) => r.t < e.hi)
        got == {<<f, j>> \in (1..Len(e.files)) \X (1..200) :
                   e.files[f].sub = e.sub /\ j <= Len(e.files[f].rows)}
    IN PadSuffices(e.p, e.p.pad, all) =>
         /\ Cardinality(got) = Len(want)
         /\ \A j \in 1..Len(want) :
              Cardinality({g \in got : e.files[g[1]].rows[g[2]].t = want[j].t
                                       /\ e.files[g[1]].day = DayOf(want[j].t)}) = 1

FileVerdict(k, want, f) ==
  \* a day without events may have no file or a file without rows
  CASE ~f.exists /\ want.rows # <<>> -> "file-missing"
    [] ~f.exists -> ""
    [] want = None /\ f.rows # <<>> -> "file-of-unprocessed-day"
    [] want = None -> ""
    [] want.rows = <<>> /\ f.rows # <<>> -> "stale-or-invented-rows"
    [] want.rows = <<>> -> ""
    [] f.cols # Cols(want.p) -> "columns"
    [] Promises(want.p, f.rows) # "" -> Promises(want.p, f.rows)
    [] OTHER -> RowsMatch(k, want.p, f.rows, want.rows)

TReject(k, st, e) ==
  LET exp == After(k, e, st)
      got == [d \in DOMAIN st |->
                LET m == SelectSeq(e.files, LAMBDA f : f.file = d)
                IN IF m = <<>> THEN "unlisted-file" ELSE FileVerdict(k, exp[d], m[1])]
      bad == {d \in DOMAIN st : got[d] # ""}
  IN CASE e.e # "trigger" -> "unknown-event"
       [] e.raised # Raised(k, e) -> IF e.raised = "" THEN "no-exception" ELSE "raised-" \o e.raised
       [] ~AcrossDays(k, e) -> "days-do-not-add-up"
       [] Len(e.stray) > 0 -> "stray-file"
       [] bad # {} -> got[CHOOSE d \in bad : TRUE]
       [] OTHER -> ""
TStep(k, st, e) == After(k, e, st)

CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
