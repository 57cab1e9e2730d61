------------------------------- MODULE CutWaveTrace -------------------------------
(***************************************************************************)
(* c.raw: the raw traces as in CutWave.tla (times in microseconds).          *)
(* "write": q the request; got: <<raw trace, first, last, contents it        *)
(*   matches>>; stray: file traces that are no trace of the event at all;      *)
(* raised: an error; inv: there is an inventory. "measure": something was     *)
(* measured in between. "end": files: other files left.                       *)
(***************************************************************************)
EXTENDS CutWave, TraceKit
VARIABLES c, l, s, v
WriteReject(raw, e) ==
  LET q == e.q
      I == DOMAIN raw
      of(i) == {k \in DOMAIN e.got : e.got[k][1] = i}
      Ok(i, k) == /\ <<e.got[k][2], e.got[k][3]>> \in Cuts(raw[i], q)
      must(i) == Cuts(raw[i], q) # {} /\ \A w \in Cuts(raw[i], q) : Written(raw[i], q, w)
      may(i) == \E w \in Cuts(raw[i], q) : Written(raw[i], q, w)
      edge(i) == \E a \in Starts(raw[i], q), b \in Ends(raw[i], q) : a > b
      some == \E i \in I : \E w \in Cuts(raw[i], q) : ~Flat(raw[i], w)
  IN CASE ~e.inv /\ q.type # "raw" ->
             IF e.got # <<>> \/ e.stray > 0 THEN "written-without-inventory"
             ELSE IF some /\ ~e.raised /\ \A i \in I : ~edge(i) THEN "not-told" ELSE ""
       [] e.raised -> "raised"
       [] e.stray > 0 -> "not-of-the-event"
       [] \E i \in I : Cardinality(of(i)) > 1 -> "trace-twice"
       [] \E i \in I : must(i) /\ ~edge(i) /\ of(i) = {} -> "trace-missing"
       [] \E i \in I : ~may(i) /\ of(i) # {} -> "trace-without-data-or-response"
       [] \E i \in I : \E k \in of(i) : ~Ok(i, k) -> "window"
       [] \E i \in I : \E k \in of(i) : Content(q) \notin RangeOf(e.got[k][4]) -> "content"
       [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) == CASE e.e = "write" -> WriteReject(k.raw, e)
                       [] e.e = "measure" -> ""
                       [] e.e = "end" -> IF e.files = 0 THEN "" ELSE "other-files"
                       [] OTHER -> "unknown-event"
TStep(k, st, e) == st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
