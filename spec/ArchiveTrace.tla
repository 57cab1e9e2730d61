------------------------------ MODULE ArchiveTrace ------------------------------
(***************************************************************************)
(* Case: recs = the archive, each [id, st, k, n, ver, day, sh, f]: channel    *)
(* and station numbers, first sample, length, version of the values, day of  *)
(* the file, whole samples by which putting it on the sample grid moves it   *)
(* (0 or 1), rate as a multiple of the case's rate.  want = stations asked   *)
(* for, all = every station is read, per = samples of the case's rate a day. *)
(* A "read" event: window a..b with pads, raised (the exception's name), and *)
(* raw, wf: traces [id, st, f, k, n, off, runs] whose runs <<first, n, d,     *)
(* ver>> say what the samples hold: sample first + d of version ver.         *)
(***************************************************************************)
EXTENDS Archive, TraceKit
VARIABLES c, l, s, v

RecsOf(k, i) == {r \in RangeOf(k.recs) : r.id = i}
\* the records of a channel as they stand on the sample grid
Moved(k, i) == {[k |-> r.k + r.sh, n |-> r.n, ver |-> r.ver, day |-> r.day] : r \in RecsOf(k, i)}
\* a sample off the grid whose place on the grid is the edge of the window lies a little
\* outside the window: it has to be read only if its stretch was written in one piece (one)
MustOf(k, i, x, y, per) ==
  UNION {LET J == InRange([k |-> r.k + r.sh, n |-> r.n], x, y)
         IN IF r.day \notin DaysOf(x, y, per) THEN {}
            ELSE IF r.off = 0 THEN J
            ELSE J \ ((IF r.sh = 0 /\ ~(r.one /\ (y - 1) \in J) THEN {y} ELSE {})
                      \cup (IF r.sh = 1 /\ ~(r.one /\ (x + 1) \in J) THEN {x} ELSE {}))
         : r \in RecsOf(k, i)}
Mixed(k, i) == \E r, q \in RecsOf(k, i) : r.f # q.f
Fac(k, i) == (CHOOSE r \in RecsOf(k, i) : TRUE).f
Sh(k, i) == (CHOOSE r \in RecsOf(k, i) : TRUE).sh
Ids(k) == {r.id : r \in RangeOf(k.recs)}
St(k, i) == (CHOOSE r \in RecsOf(k, i) : TRUE).st
Wanted(k, i) == St(k, i) \in RangeOf(k.want)
Visible(k, i) == k.all \/ Wanted(k, i)

\* what one of the two streams holds: out = its traces, x..y the window (case samples),
\* plo..phi the padded window, ids which may be in it, m = the shift already applied
Traces(out, i) == {j \in 1..Len(out) : out[j].id = i}
Covered(out, i, shift) ==
  UNION {(out[j].k + shift)..(out[j].k + out[j].n - 1 + shift) : j \in Traces(out, i)}
ChanClause(k, out, i, x, y, plo, phi, shift) ==
  LET f == Fac(k, i)
      R == Moved(k, i)
      lo == plo * f
      hi == phi * f
      must == {t \in MustOf(k, i, lo, hi, k.per * f) : t >= x * f /\ t <= y * f}
      may == {t \in May(R, lo, hi) : t >= x * f /\ t <= y * f}
      got == Covered(out, i, shift)
      T == {out[j] : j \in Traces(out, i)}
      clash == Conflict({r \in R : InRange(r, lo, hi) # {}})
      RunSlots(tr, q) == (q[1] + shift)..(q[1] + q[2] - 1 + shift)
  IN CASE ~(got \subseteq x * f .. y * f) -> "outside-window"
       [] ~(got \subseteq may) -> "invented-samples"
       [] \E tr \in T : tr.f # f -> "wrong-rate"
       [] \E tr \in T : \E q \in RangeOf(tr.runs) : q[3] # 0 -> "sample-at-wrong-time"
       [] \E tr \in T : \E q \in RangeOf(tr.runs) :
             ~\E r \in R : r.ver = q[4] /\ RunSlots(tr, q) \cap Slots(r) # {} -> "wrong-value"
       [] clash /\ T = {} -> ""
       [] ~(must \subseteq got) -> "samples-missing"
       [] clash /\ \E t \in must : \E ve \in VersAt(R, t) :
             ~\E tr \in T : \E q \in RangeOf(tr.runs) : q[4] = ve /\ t \in RunSlots(tr, q)
          -> "overwritten"
       [] ~clash /\ \E j1, j2 \in Traces(out, i) : j1 # j2
             /\ out[j1].k <= out[j2].k + out[j2].n /\ out[j2].k <= out[j1].k + out[j1].n
          -> "not-joined"
       [] OTHER -> ""
FirstOf(S, f(_)) == IF S = {} THEN "" ELSE f(CHOOSE i \in S : TRUE)
ReadReject(k, e) ==
  LET plo == e.a - e.pre
      phi == e.b + e.post
      dayFiles == {r \in RangeOf(k.recs) : (k.all \/ r.st \in RangeOf(k.want)) /\
                      r.day \in (plo \div k.per)..(phi \div k.per)}
      anyFiles == {r \in RangeOf(k.recs) : r.day \in (plo \div k.per)..(phi \div k.per)}
      junk == \E d \in RangeOf(k.junk) : d \in (plo \div k.per)..(phi \div k.per)
      ids == Ids(k)
      RawBad == {i \in {x \in ids : Visible(k, x) /\ ~Mixed(k, x)} :
                   ChanClause(k, e.raw, i, plo, phi, plo, phi, Sh(k, i)) # ""}
      WfBad == {i \in {x \in ids : Wanted(k, x) /\ ~Mixed(k, x)} :
                   ChanClause(k, e.wf, i, e.a, e.b, plo, phi, 0) # ""}
      Some == \E i \in ids : Wanted(k, i) /\ ~Mixed(k, i) /\ ~Conflict(Moved(k, i))
                 /\ \E t \in MustOf(k, i, plo * Fac(k, i), phi * Fac(k, i), k.per * Fac(k, i)) :
                       t >= e.a * Fac(k, i) /\ t <= e.b * Fac(k, i)
      Perhaps == \E i \in ids : Wanted(k, i) /\ (Mixed(k, i)
                 \/ \E t \in May(Moved(k, i), plo * Fac(k, i), phi * Fac(k, i)) :
                       t >= e.a * Fac(k, i) /\ t <= e.b * Fac(k, i))
  IN CASE e.raised = "ArchiveEmptyException" ->
            IF dayFiles = {} THEN "" ELSE "no-files-claimed"
       [] e.raised = "DataGapException" ->
            IF anyFiles = {} /\ ~junk THEN "empty-not-reported" ELSE IF Some THEN "no-data-claimed" ELSE ""
       [] e.raised # "" -> "raised"
       [] dayFiles = {} /\ ~Perhaps -> "empty-not-reported"
       [] ~Perhaps -> "gap-not-reported"
       [] \E j \in 1..Len(e.wf) : e.wf[j].id \notin ids \/ e.wf[j].st \notin RangeOf(k.want) -> "other-station"
       [] \E j \in 1..Len(e.raw) : e.raw[j].id \notin ids
             \/ ~(k.all \/ e.raw[j].st \in RangeOf(k.want)) -> "raw-other-station"
       [] k.chk = "grid" /\ \E j \in 1..Len(e.wf) : e.wf[j].off # 0 -> "off-grid"
       [] \E j \in 1..Len(e.raw) : \E i \in ids : i = e.raw[j].id /\ ~Mixed(k, i)
             /\ e.raw[j].off # (CHOOSE r \in RecsOf(k, i) : TRUE).off -> "raw-retimed"
       [] ~e.again -> "window-or-settings-changed"
       [] RawBad # {} -> LET i == CHOOSE x \in RawBad : TRUE
                         IN "raw-" \o ChanClause(k, e.raw, i, plo, phi, plo, phi, Sh(k, i))
       [] WfBad # {} -> LET i == CHOOSE x \in WfBad : TRUE
                        IN ChanClause(k, e.wf, i, e.a, e.b, plo, phi, 0)
       [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) == CASE e.e = "read" -> ReadReject(k, e)
                       [] OTHER -> "unknown-event"
TStep(k, st, e) == st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
