-------------------------------- MODULE RunsTrace --------------------------------
(***************************************************************************)
(* One event per stage call: "op" with what it is about (see Runs.tla), key  *)
(* (its settings and other inputs), written: <<path, contents>> of every      *)
(* file created, rewritten or touched below the common directory, removed:   *)
(* paths, changed: names of objects or inputs it left altered, raised.        *)
(* State: store, what every output file holds; memo, what came of which       *)
(* inputs.                                                                    *)
(***************************************************************************)
EXTENDS Runs, TraceKit
VARIABLES c, l, s, v
Of(e) == [stage |-> e.stage, run |-> e.run, sub |-> e.sub, days |-> RangeOf(e.days),
          rdays |-> RangeOf(e.rdays), uids |-> RangeOf(e.uids),
          stations |-> RangeOf(e.stations), log |-> e.log]
W(e) == {<<x[1], x[2]>> : x \in RangeOf(e.written)}
OutOf(e) == {<<f[1], x[2]>> : f \in Files(Of(e)), x \in W(e)}
            \cap UNION {{<<f[1], x[2]>> : x \in {y \in W(e) : y[1] = f[2]}} : f \in Files(Of(e))}
Mem(st, e) == [key |-> e.key, in |-> Given(Of(e), st.store), out |-> OutOf(e), raised |-> e.raised]
OpReject(st, e) ==
  LET op == Of(e)
      own == Owned(op)
      m == Mem(st, e)
      logs == {x \in W(e) : x[1] = LogFile(op)}
  IN CASE e.changed # <<>> -> "altered-" \o e.changed[1]
       [] \E x \in W(e) : x[1] \notin own -> "file-elsewhere"
       [] \E p \in RangeOf(e.removed) : p \notin own -> "removed-elsewhere"
       [] e.log /\ ~\E x \in logs : x[2] = "messages" -> "log"
       [] \E x \in logs : x[2] = "foreign" -> "log-of-another"
       [] \E q \in st.memo : q.key = m.key /\ q.in = m.in /\ q.raised # m.raised -> "raised"
       [] \E q \in st.memo : q.key = m.key /\ q.in = m.in /\ q.out # m.out -> "not-repeatable"
       [] OTHER -> ""
TStart(k) == [store |-> {}, memo |-> {}]
TReject(k, st, e) == CASE e.e = "op" -> OpReject(st, e)
                       [] OTHER -> "unknown-event"
TStep(k, st, e) ==
  LET gone == RangeOf(e.removed)
      new == {x[1] : x \in W(e)}
  IN [store |-> {t \in st.store : t[1] \notin gone /\ t[1] \notin new} \cup W(e),
      memo |-> st.memo \cup {Mem(st, e)}]
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
