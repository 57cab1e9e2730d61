------------------------------ MODULE LocateTrace ------------------------------
(***************************************************************************)
(* Recorded QuakeScan.locate runs. Times are samples.                       *)
(* Case: evs (triggered events [t, uid, fate, av, trig, coa, norm]), mw, day, *)
(* on, tt, ofs, ex as in DetectTrace, n (grid dimensions, nodes in C order). *)
(* chk says how much of an event's values is judged: "set" (which events,    *)
(* and that they do not depend on others), "agree" (also its peak), "peak".  *)
(* Events, for every call: "call" (what is asked for, days with a trigger    *)
(* file), "read"* (archive windows), "event"* (event files), "map"*, "marg"* *)
(* (coalescence maps), "end" (exception, all file names).                    *)
(***************************************************************************)
EXTENDS Locate, Migration, TraceKit
VARIABLES c, l, s, v

RECURSIVE SumOn(_, _, _, _, _)
SumOn(k, a, n, t, o) ==
  IF o = 0 THEN 0
  ELSE SumOn(k, a, n, t, o - 1) + k.on[a[o]][t + k.tt[n][a[o]] - k.ofs + 1]
MapAt(k, a, t) == [n \in 1..Len(k.tt) |-> SumOn(k, a, n, t, Len(a))]
MaxTT(k) == CHOOSE x \in {k.tt[n][o] : n \in 1..Len(k.tt), o \in 1..Len(k.names)} :
              \A n \in 1..Len(k.tt) : \A o \in 1..Len(k.names) : k.tt[n][o] <= x

\* the trace of peak coalescence over the scanned window, as a function of time
Trace(k, i) == [t \in Scanned(k.evs[i].t, k.mw) |-> MaxOver(MapAt(k, k.evs[i].av, t))]
Peaks(k, i) == LET f == Trace(k, i) IN PeakSet(f, DOMAIN f)
Usable(k, i) == k.evs[i].fate = "ok" /\ k.evs[i].av # <<>>
\* with a tie at the top either sample may be taken
MayBeIn(k, i) == Usable(k, i) /\ \E o \in Peaks(k, i) : Inside(k.evs[i].t, o, k.mw)
MustBeIn(k, i) == Usable(k, i) /\ \A o \in Peaks(k, i) : Inside(k.evs[i].t, o, k.mw)

Ex(k, no, x) == k.ex[no][x + 1]
\* time-marginalised coalescence of node n around origin sample o (1e-2)
RECURSIVE MargTo(_, _, _, _, _)
MargTo(k, a, n, o, t) ==
  IF t < o - k.mw THEN 0
  ELSE Ex(k, Len(a), SumOn(k, a, n, t, Len(a))) + MargTo(k, a, n, o, t - 1)
Marg(k, i, o) == [n \in 1..Len(k.tt) |-> MargTo(k, k.evs[i].av, n, o, o + k.mw)]
MargTol(k) == 2 * k.mw + 3
\* node n (1-based, C order) on axis x
NodeAt(k, n, x) == IF x = 1 THEN (n - 1) \div (k.n[2] * k.n[3])
                   ELSE IF x = 2 THEN ((n - 1) \div k.n[3]) % k.n[2]
                   ELSE (n - 1) % k.n[3]
\* width of the 5-node neighbourhood of a node along an axis, cut at the grid's edges
Width(k, n, x) == LET p == NodeAt(k, n, x) IN Min2(p + 3, k.n[x]) - Max2(p - 2, 0)
Interp(k, n) == Width(k, n, 1) = Width(k, n, 2) /\ Width(k, n, 2) = Width(k, n, 3)
AtNode(k, pos, n) ==
  IF Interp(k, n) THEN \A x \in 1..3 : Abs(pos[x] - 100 * NodeAt(k, n, x)) <= 201
  ELSE \A x \in 1..3 : Abs(pos[x] - 100 * NodeAt(k, n, x)) <= 1

\* a value that an event file leaves out: trigger files of the first layout (style "older")
\* carry the trigger value alone
NoNumber == -1073741824
FourDigits(a, b) == Abs(a - b) <= (Abs(a) \div 1990) + 1
NormOK(k, no, m, norm3) ==
  LET sum == FoldLeft(LAMBDA b, x : b + Ex(k, no, x), 0, m)
      mx == Ex(k, no, MaxOver(m))
      nn == Len(m)
  IN Abs(norm3 * sum - 1000 * mx * nn) <= (2 + norm3 \div 1900) * sum + 1000 * nn + norm3 * nn

\* the covariance uncertainty (spacing is in 1e-3 units, cov in 1e-3 units), from the
\* weights w (1e-2) of the nodes above nine tenths of the peak
CovOK(k, marg, cov) ==
  LET mx == MaxOver(marg)
      w == [n \in 1..Len(marg) |-> (marg[n] * 100) \div mx]
      near == {n \in 1..Len(marg) : (marg[n] * 1000) \div mx \in 893..907}
      S == {n \in 1..Len(marg) : w[n] >= 90}
      Sum(f(_)) == FoldLeft(LAMBDA b, n : IF n \in S THEN b + f(n) ELSE b, 0, [n \in 1..Len(marg) |-> n])
      sw == Sum(LAMBDA n : w[n])
      s1(x) == Sum(LAMBDA n : w[n] * NodeAt(k, n, x))
      s2(x) == Sum(LAMBDA n : w[n] * NodeAt(k, n, x) * NodeAt(k, n, x))
  IN \/ near # {} \/ Len(marg) > 60
     \/ \A x \in 1..3 :
          LET var2 == sw * s2(x) - s1(x) * s1(x)      \* variance times sw^2
              q == (cov[x] * 100) \div k.spacing[x]   \* error in hundredths of a node
              \* bracket: (q - 2)^2 <= 1e4 var <= (q + 3)^2
              lo == IF q < 3 THEN 0 ELSE q - 3
          IN /\ (lo * lo) * ((sw * sw) \div 10000) <= var2 + sw
             /\ ((q + 4) * (q + 4)) * ((sw * sw) \div 10000 + 1) + sw >= var2

-----------------------------------------------------------------------------
(* State: the current call, what it may consider, what it has considered,    *)
(* and the digests of what was written for each event by any call            *)
Start0 == [call |-> 0, sel |-> {}, want |-> "", seen |-> {}, left |-> {}, dig |-> <<>>, o |-> <<>>]
TStart(k) == Start0
SelOf(k, e) ==
  CASE e.how = "span" -> {i \in 1..Len(k.evs) : InSpan(k.evs[i].t, e.a, e.b, k.day)
                             /\ \E j \in 1..Len(e.files) : e.files[j] = EvDay(k.evs[i].t, k.day)}
    [] e.how = "file" -> RangeOf(e.idx)
    [] OTHER -> {}
WantOf(k, e) ==
  CASE e.how = "span" /\ e.a > e.b -> "TimeSpanException"
    [] e.how = "span" /\ RangeOf(e.files) \cap SpanDays(e.a, e.b, k.day) = {} -> "NoTriggerFilesFound"
    [] e.how \in {"span", "file"} -> ""
    [] OTHER -> "RuntimeError"

EventReject(k, st, e) ==
  IF e.i = 0 THEN "event-of-nothing"
  ELSE
  LET i == e.i
      x == k.evs[i]
  IN CASE i \notin st.sel -> "event-not-selected"
       [] ~MayBeIn(k, i) -> "event-not-eligible"
       [] e.rows # 1 \/ e.uid # x.uid \/ e.file # x.uid -> "event-identity"
       [] e.dt \notin Peaks(k, i) -> "origin-time"
       [] ~Inside(x.t, e.dt, k.mw) -> "outside-marginal-window"
       [] k.chk # "set" /\ Abs(e.lc - 1000 * MaxOver(MapAt(k, x.av, e.dt))) > 20 -> "coalescence"
       [] k.chk # "set" /\ ~NormOK(k, Len(x.av), MapAt(k, x.av, e.dt), e.norm) -> "normalised-coalescence"
       [] k.chk # "set" /\ ~(/\ FourDigits(x.trig, e.trig)
                            /\ IF k.style = "older" THEN e.dec = NoNumber /\ e.decn = NoNumber
                               ELSE FourDigits(x.coa, e.dec) /\ FourDigits(x.norm, e.decn))
            -> "trigger-values"
       [] e.pick = "" -> "pick-file-missing"
       [] k.chk = "peak" /\ LET m == Marg(k, i, e.dt)
              top == MaxOver(m)
          IN ~(\E n \in 1..Len(m) : m[n] >= top - MargTol(k) /\ AtNode(k, e.pos, n)) -> "location"
       [] k.chk = "peak" /\ ~CovOK(k, Marg(k, i, e.dt), e.cov) -> "covariance-error"
       [] i \in DOMAIN st.dig /\ st.dig[i] # <<>> /\ st.dig[i] # <<e.sha, e.pick>> -> "depends-on-other-events"
       [] OTHER -> ""
MapReject(k, st, e) ==
  IF e.i = 0 THEN "map-of-nothing"
  ELSE
  LET i == e.i
      t0 == k.evs[i].t - 2 * k.mw
  IN CASE i \notin st.sel \/ ~Usable(k, i) -> "map-not-expected"
       [] e.shape # <<k.n[1], k.n[2], k.n[3], 4 * k.mw + 1>> -> "map-shape"
       [] e.val = <<>> -> "map-not-finite"
       [] k.chk # "set" /\ \E n \in 1..Len(e.val) : \E j \in 1..Len(e.val[n]) :
            Abs(e.val[n][j] - 1000 * SumOn(k, k.evs[i].av, n, t0 + j - 1, Len(k.evs[i].av))) > 20
            -> "map-value"
       [] OTHER -> ""
MargReject(k, st, e) ==
  IF e.i = 0 THEN "map-of-nothing"
  ELSE
  LET i == e.i
      fits(o) == LET m == Marg(k, i, o)
                     top == MaxOver(m)
                 IN \A n \in 1..Len(m) :
                      Abs(e.val[n] * (top \div 10) - 1000 * m[n]) <= 1000 * MargTol(k) + top \div 10 + e.val[n]
  IN CASE i \notin st.sel \/ ~MayBeIn(k, i) -> "map-not-expected"
       [] e.shape # k.n -> "map-shape"
       [] e.val = <<>> -> "map-not-finite"
       [] k.chk = "peak" /\ IF i \in DOMAIN st.o /\ st.o[i] # {} THEN ~\E o \in st.o[i] : fits(o)
          ELSE ~\E o \in Peaks(k, i) : fits(o) -> "marginal-map"
       [] OTHER -> ""
UidSet(k, S) == {k.evs[i].uid : i \in S}
EndReject(k, st, e) ==
  LET got == RangeOf(e.uids)
      must == {i \in st.sel : MustBeIn(k, i)}
      may == {i \in st.sel : MayBeIn(k, i)}
      us == {i \in st.sel : Usable(k, i)}
  IN CASE e.raised # st.want -> "error"
       [] st.want # "" /\ (st.seen # {} \/ got # {} \/ e.picks # <<>>) -> "work-despite-error"
       [] st.want = "" /\ st.seen # st.sel -> "event-not-considered"
       [] ~(UidSet(k, must) \subseteq got) -> "eligible-event-missing"
       [] ~(got \subseteq UidSet(k, may)) -> "event-not-eligible"
       [] got # RangeOf(e.picks) -> "picks-and-events-differ"
       [] k.maps /\ RangeOf(e.maps) # UidSet(k, us) -> "maps"
       [] k.maps /\ RangeOf(e.margs) # got -> "marginal-maps"
       [] e.stray # <<>> -> "stray-file"
       [] OTHER -> ""
TReject(k, st, e) ==
  CASE e.e = "call" -> ""
    [] e.e = "read" ->
         (CASE e.i = 0 -> "read-of-nothing"
            [] e.i \notin st.sel -> "event-not-selected"
            [] e.i \in st.seen -> "event-considered-twice"
            [] e.first > k.evs[e.i].t - 2 * k.mw -> "window-start"
            [] e.last < k.evs[e.i].t + 2 * k.mw + MaxTT(k) -> "window-short"
            [] OTHER -> "")
    [] e.e = "event" -> EventReject(k, st, e)
    [] e.e = "map" -> MapReject(k, st, e)
    [] e.e = "marg" -> MargReject(k, st, e)
    [] e.e = "end" -> EndReject(k, st, e)
    [] e.e = "agree" -> (* detect's record against locate's map, sample by sample *)
         (CASE e.i \notin 1..Len(k.evs) -> "event-of-nothing"
            [] Len(e.d) < e.n -> "detect-record-missing"
            [] \E j \in 1..Len(e.d) : Abs(e.d[j] - e.l[j]) > 12 -> "detect-and-locate-differ"
            [] \E j \in 1..Len(e.d) : Abs(e.dn[j] - e.ln[j]) > 12 -> "normalised-differ"
            [] OTHER -> "")
    [] e.e = "dread" -> IF e.first > e.t THEN "window-start"
                        ELSE IF e.last < e.t + e.ts - 1 + MaxTT(k) THEN "window-short" ELSE ""
    [] e.e = "link" -> (* the triggered place is a node where detect's peak was attained *)
         (LET m == MapAt(k, k.evs[e.i].av, k.evs[e.i].t)
          IN CASE e.node \notin 1..Len(m) -> "triggered-place"
               [] m[e.node] # MaxOver(m) -> "triggered-place"
               [] ~e.norm /\ Peaks(k, e.i) = {k.evs[e.i].t} /\ e.i \in DOMAIN st.o
                     /\ st.o[e.i] # {k.evs[e.i].t} -> "not-located-at-trigger-time"
               [] OTHER -> "")
    [] OTHER -> "unknown-event"
TStep(k, st, e) ==
  CASE e.e = "call" -> [st EXCEPT !.call = e.call, !.sel = SelOf(k, e), !.want = WantOf(k, e),
                                  !.seen = {},
                                  !.dig = IF st.dig = <<>> THEN [i \in 1..Len(k.evs) |-> <<>>] ELSE @,
                                  !.o = [i \in 1..Len(k.evs) |-> {}]]
    [] e.e = "read" -> [st EXCEPT !.seen = @ \cup {e.i}]
    [] e.e = "event" -> [st EXCEPT !.dig[e.i] = <<e.sha, e.pick>>, !.o[e.i] = {e.dt}]
    [] OTHER -> st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
