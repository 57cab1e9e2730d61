------------------------------- MODULE WaveTrace -------------------------------
(***************************************************************************)
(* Events (ticks are microseconds from the window's start):                  *)
(* "avail"    T: pieces, o: settings, W; ret: available, av: <<id, value>>,   *)
(*            raised.                                                        *)
(* "resample" T: pieces, q, u, W; out: [id, s, n, p, err, equal], told: how   *)
(*            many records were logged, pure, raised.                        *)
(* "shift"    T: [id, s, n, p], out: [id, s, n, p, equal, err], interp, pure. *)
(* "onsets"   T: pieces with st, comp; phases: [name, comps, count], stations *)
(*            asked for, o, q, u, W; avail: <<st, phase, value>> in order,     *)
(*            rows: [st, phase, n, floor, err] in order, raised.             *)
(***************************************************************************)
EXTENDS Waveforms, TraceKit
VARIABLES c, l, s, v

Set(q) == RangeOf(q)
AvailReject(e) ==
  LET T == Set(e.T)
      ids == IdsOf(T)
      needrate == e.o.csr /\ e.o.rate = 0
  IN CASE e.raised # "" ->
            IF e.raised = "TypeError" /\ (e.o.rate = 0 \/ e.o.count = 0) THEN "" ELSE "raised"
       [] {x[1] : x \in Set(e.av)} # ids -> "channels-listed"
       [] Len(e.av) # Cardinality(ids) -> "channel-listed-twice"
       [] {x[1] : x \in {y \in Set(e.av) : y[2] = 1}} # Good(T, e.o, e.W)
          \/ \E x \in Set(e.av) : x[2] \notin {0, 1} -> "channel-availability"
       [] e.ret # (IF Available(T, e.o, e.W) THEN 1 ELSE 0) -> "availability"
       [] ~e.pure -> "data-changed"
       [] OTHER -> ""

OutOf(out, i) == {x \in Set(out) : x.id = i}
Pts(x) == {x.s + j * x.p : j \in 0..(x.n - 1)}
ResReject(e) ==
  LET T == Set(e.T)
      out == Set(e.out)
      bad == {t \in T : Kind(t, e.q, e.u) = "bad"}
      left == {t \in T : Kind(t, e.q, e.u) = "left"}
      moved == {t \in T : Kind(t, e.q, e.u) \notin {"bad", "left"}}
      Lost(t) == LET a == First(t, e.q, e.u, e.W)
                     b == Last(t, e.q, e.u, e.W)
                 IN IF a > b THEN FALSE
                    ELSE ~\E x \in OutOf(e.out, t.id) : x.s <= a /\ End(x) >= b
      Odd(x) == x.p # e.q
      OffGrid(x) == x.s % e.q # 0
      Outside(x) == x.s < 0 \/ End(x) > e.W
      Extra(x) == ~\E t \in Of(T, x.id) : First(t, e.q, e.u, e.W) <= x.s
                                          /\ End(x) <= Last(t, e.q, e.u, e.W)
      mine == {x \in out : \E t \in moved : t.id = x.id}
  IN CASE e.raised = "BadUpfactorException" -> IF bad # {} THEN "" ELSE "refused"
       [] e.raised # "" -> "raised"
       [] bad # {} -> "bad-factor-accepted"
       [] ~e.pure -> "input-changed"
       [] \E x \in mine : Odd(x) -> "rate"
       [] left # {} /\ e.told = 0 -> "not-reported"
       [] \E x \in mine : OffGrid(x) -> "off-grid"
       [] \E x \in mine : Outside(x) -> "outside-window"
       [] \E t \in moved : Lost(t) -> "samples-lost"
       [] \E x \in mine : Extra(x) -> "samples-invented"
       [] \E x \in mine : \E t \in moved : t.id = x.id /\ Kind(t, e.q, e.u) = "same" /\ ~x.equal
          -> "changed-although-at-rate"
       [] \E x \in mine : x.err > 30 -> "value-at-wrong-time"
       [] {x.id : x \in out} \ {t.id : t \in T} # {} -> "unknown-channel"
       [] OTHER -> ""

ShiftReject(e) ==
  LET Bad(t) == LET X == OutOf(e.out, t.id)
                    d == t.s % t.p
                IN CASE Cardinality(X) # 1 -> "trace-lost"
                     [] \E x \in X : x.p # t.p \/ x.n # t.n -> "shape"
                     [] \E x \in X : x.s % x.p # 0 -> "shift-off-grid"
                     [] \E x \in X : (x.s - t.s) \notin Shifts(d, t.p) -> "shift-distance"
                     [] (d = 0 \/ ~e.interp) /\ \E x \in X : ~x.equal -> "shift-changed-values"
                     [] \E x \in X : x.err > 30 -> "shift-value-at-wrong-time"
                     [] OTHER -> ""
      B == {t \in Set(e.T) : Bad(t) # ""}
  IN CASE ~e.pure -> "shift-input-changed"
       [] B # {} -> Bad(CHOOSE t \in B : TRUE)
       [] OTHER -> ""

\* pieces as they are after resampling; the traces that could not be brought to the rate
\* keep theirs and fail the rate test
After(t, q, u, W) ==
  IF Kind(t, q, u) \in {"left", "bad"} THEN t
  ELSE LET a == First(t, q, u, W)
           b == Last(t, q, u, W)
       IN [t EXCEPT !.s = a, !.n = (b - a) \div q + 1, !.p = q]
Piece(t) == [id |-> t.id, s |-> t.s, n |-> t.n, p |-> t.p, flat |-> t.flat]
PhaseSet(e, x, ph) == {Piece(After(t, e.q, e.u, e.W)) :
                         t \in {y \in Set(e.T) : y.st = x /\ y.comp \in RangeOf(ph.comps)}}
Opt(e, ph) == [gaps |-> e.o.gaps, full |-> e.o.full, csr |-> TRUE, rate |-> e.q, ends |-> FALSE,
               all |-> e.o.all, count |-> ph.count]
OnsetReject(e) ==
  LET Avl(x, j) == Available(PhaseSet(e, x, e.phases[j]), Opt(e, e.phases[j]), e.W)
      want == {<<x, j>> : x \in RangeOf(e.stations), j \in 1..Len(e.phases)}
      yes == {p \in want : Avl(p[1], p[2])}
      said == {<<x[1], x[2]>> : x \in Set(e.avail)}
      ones == SelectSeq(e.avail, LAMBDA x : x[3] = 1)
      bad == \E t \in Set(e.T) : Kind(t, e.q, e.u) = "bad"
               /\ \E j \in 1..Len(e.phases) : t.comp \in RangeOf(e.phases[j].comps)
  IN CASE e.raised = "BadUpfactorException" -> IF bad THEN "" ELSE "refused"
       [] bad -> "bad-factor-accepted"
       [] e.raised = "DataAvailabilityException" -> IF yes = {} THEN "" ELSE "data-denied"
       [] e.raised # "" -> "raised"
       [] yes = {} -> "no-data-not-reported"
       [] said # want \/ Len(e.avail) # Cardinality(want) -> "availability-entries"
       [] \E x \in Set(e.avail) : (x[3] = 1) # (<<x[1], x[2]>> \in yes) \/ x[3] \notin {0, 1}
          -> "availability-value"
       [] Len(e.rows) # Len(ones) -> "onset-count"
       [] \E j \in 1..Len(ones) : e.rows[j].err > 1 -> "onset-value-or-order"
       [] \E j \in 1..Len(ones) : e.rows[j].n # e.W \div e.q + 1 -> "onset-length"
       [] \E j \in 1..Len(ones) : e.rows[j].floor < 0 -> "onset-below-floor"
       [] {<<x[1], x[2]>> : x \in Set(e.named)} # {<<x[1], x[2]>> : x \in RangeOf(ones)}
          \/ \E x \in Set(e.named) : x[3] # 1 -> "named-onsets"
       [] ~e.pure -> "data-changed"
       [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) == CASE e.e = "avail" -> AvailReject(e)
                       [] e.e = "resample" -> ResReject(e)
                       [] e.e = "shift" -> ShiftReject(e)
                       [] e.e = "onsets" -> OnsetReject(e)
                       [] OTHER -> "unknown-event"
TStep(k, st, e) == st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
