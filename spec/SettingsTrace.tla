---------------------------- MODULE SettingsTrace ----------------------------
(***************************************************************************)
(* Histories of several objects with settings. The state is a sequence of    *)
(* objects <<kind, state>>. n, t and l are lists of <<name, value>>.           *)
(*   "new": kind, arguments n t l, out; the object becomes the next one.       *)
(*   "set": object i, name, value v, out. "use": object i, out.                *)
(*   "call": object i (or 0), q (stage, given, after), out.                     *)
(* Each of these has reads: per object its attributes, n, t and l, after it.   *)
(*   "stations"/"vmodel": a file with columns cols, out. "compute": q, out.      *)
(*   "scan": phases of the onset functions and of the lookup table, out.         *)
(***************************************************************************)
EXTENDS Settings, TraceKit
VARIABLES c, l, s, v

Fun(ps) == LET D == {ps[j][1] : j \in DOMAIN ps}
           IN [x \in D |-> (LET j == CHOOSE j \in DOMAIN ps : ps[j][1] = x IN ps[j][2])]
Args(e) == [n |-> Fun(e.n), t |-> Fun(e.t), l |-> Fun(e.l)]
Append1(st, kind, r) == IF r.out = "ok" THEN Append(st, [kind |-> kind, s |-> r.s]) ELSE st
After(st, e) ==
  CASE e.e = "new" -> Append1(st, e.kind, New(e.kind, Args(e)))
    [] e.e = "set" -> [st EXCEPT ![e.i].s = Set(st[e.i].kind, st[e.i].s, e.name, e.v).s]
    [] OTHER -> st

OutOk(want, out) == IF want = "error" THEN out # "ok" ELSE out = want
UseOk(o, out) ==
  \/ OutOk(Use(o.kind, o.s), out)
  \/ /\ o.kind = "onset" /\ Use("onset", o.s) = "NyquistException"      \* two things wrong
     /\ (o.s.t.position \notin Positions \/ o.s.t.signal_transform \notin Transforms)
     /\ out # "ok"
  \/ /\ o.kind = "amplitude" /\ o.s.t.loc_method \notin LocMethods /\ out # "ok"

(* What must be readable of an object of a kind. *)
Needed(kind) == LET d == Defaults[kind]
                IN DOMAIN d.n \cup DOMAIN d.t \cup DOMAIN d.l \cup DOMAIN Aliases[kind]
                   \cup (IF kind = "onset" THEN {"onset_centred", "pre_pad", "sampling_rate"} ELSE {})
                   \cup (IF kind = "scan" THEN {"scan_rate", "sampling_rate"} ELSE {})
                   \cup (IF kind = "grid" THEN {"node_count", "node_spacing"} ELSE {})
Known(o) == DOMAIN o.s.n \cup DOMAIN o.s.t \cup DOMAIN o.s.l \cup Needed(o.kind)
Names(r) == {r.n[j][1] : j \in DOMAIN r.n} \cup {r.t[j][1] : j \in DOMAIN r.t} \cup {r.l[j][1] : j \in DOMAIN r.l}
Wrong(o, r) == {x \in (Names(r) \cap Known(o)) :
                  \/ \E j \in DOMAIN r.n : r.n[j][1] = x /\ r.n[j][2] # Read(o.kind, o.s, x)
                  \/ \E j \in DOMAIN r.t : r.t[j][1] = x /\ r.t[j][2] # Read(o.kind, o.s, x)
                  \/ \E j \in DOMAIN r.l : r.l[j][1] = x /\ r.l[j][2] # Read(o.kind, o.s, x)}
ReadsReject(st, reads) ==
  IF Len(reads) # Len(st) THEN "objects"
  ELSE LET miss == UNION {Needed(st[j].kind) \ Names(reads[j]) : j \in DOMAIN st}
           bad == UNION {Wrong(st[j], reads[j]) : j \in DOMAIN st}
       IN IF miss # {} THEN "missing-" \o (CHOOSE x \in miss : TRUE)
          ELSE IF bad # {} THEN "value-" \o (CHOOSE x \in bad : TRUE) ELSE ""
Outcome(st, e) ==
  CASE e.e = "new" -> IF OutOk(New(e.kind, Args(e)).out, e.out) THEN "" ELSE "outcome"
    [] e.e = "set" -> IF OutOk(Set(st[e.i].kind, st[e.i].s, e.name, e.v).out, e.out) THEN "" ELSE "outcome"
    [] e.e = "use" -> IF UseOk(st[e.i], e.out) THEN "" ELSE "use"
    [] e.e = "call" -> IF e.out \in Call([e.q EXCEPT !.given = RangeOf(@)], st[e.i].s) THEN "" ELSE "call"
TStart(k) == <<>>
TReject(k, st, e) ==
  CASE e.e = "stations" -> IF ReadStations(RangeOf(e.cols)) = e.out THEN "" ELSE "stations"
    [] e.e = "vmodel" -> IF ReadVmodel(RangeOf(e.cols)) = e.out THEN "" ELSE "vmodel"
    [] e.e = "compute" -> IF e.out \in Compute([e.q EXCEPT !.phases = RangeOf(@), !.args = RangeOf(@), !.cols = RangeOf(@)])
                          THEN "" ELSE "compute"
    [] e.e = "scan" -> IF Scan(RangeOf(e.phases), RangeOf(e.table)) = e.out THEN "" ELSE "scan"
    [] e.e \in {"new", "set", "use", "call"} ->
         LET o == Outcome(st, e) IN IF o # "" THEN o ELSE ReadsReject(After(st, e), e.reads)
    [] OTHER -> "unknown-event"
TStep(k, st, e) == After(st, e)
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
