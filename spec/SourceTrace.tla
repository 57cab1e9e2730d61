----------------------------- MODULE SourceTrace -----------------------------
(***************************************************************************)
(* Case: src (t, x, arr by column), av the columns with data, slow the time    *)
(* a shear wave takes along the longest side of a cell, smp a sample, mw the    *)
(* marginal window, sig the width of the onsets by phase, peak the largest     *)
(* coalescence (1e-3), kind: coarse, fine (nothing near the source is below     *)
(* the map's mean) or waveforms (onsets are made by the code under test); deep:  *)
(* the depth of the Gaussian location is checked whatever the map.                *)
(* "found" a stage's event: time, place, coalescence; "gauss" the Gaussian      *)
(* location and the errors along the axes of it and of the covariance;          *)
(* "picks" modelled and picked arrivals; "end".                                 *)
(***************************************************************************)
EXTENDS Source, TraceKit
VARIABLES c, l, s, v
Ts(k) == [i \in DOMAIN k.src |-> k.src[i].t]
Which(k, t) == OfTime(Ts(k), t, k.mw)
TheOne(k, t) == CHOOSE i \in Which(k, t) : \A j \in Which(k, t) :
                   AbsS(k.src[i].t - t) <= AbsS(k.src[j].t - t)
Wave(k) == k.kind = "waveforms"
\* at a node (detect, trigger) or between nodes (locate)
Level(k, e) == IF Wave(k) THEN 120 ELSE IF e.stage = "locate" THEN 40 ELSE 100
Depth(k, e) == IF e.stage = "locate" THEN (IF Wave(k) THEN 250 ELSE 140) ELSE 450
Late(k) == IF Wave(k) THEN 5000 + k.slow ELSE k.slow + k.smp
FoundReject(k, st, e) ==
  IF Which(k, e.t) = {} THEN "no-such-source"
  ELSE LET q == k.src[TheOne(k, e.t)]
       IN CASE AbsS(e.t - q.t) > Late(k) -> "origin-time"
            [] ~Near(e.pos, q.x, Level(k, e), Depth(k, e)) -> "place"
            [] ~Wave(k) /\ (e.coa > k.peak + k.peak \div 25 \/ e.coa < k.peak - k.peak \div 10) -> "coalescence"
            [] \E f \in st : f.stage = e.stage /\ AbsS(f.t - e.t) <= k.mw -> "found-twice"
            [] OTHER -> ""
GaussReject(k, e) ==
  IF Which(k, e.t) = {} THEN "no-such-source"
  ELSE LET q == k.src[TheOne(k, e.t)]
       IN CASE k.kind = "fine" /\ ~Near(e.pos, q.x, 60, 100 + e.cov[3]) -> "gaussian-place"
            [] ~Near(e.pos, q.x, 300, IF k.deep THEN MaxS(400, 100 + e.cov[3]) ELSE 10000000) -> "gaussian-far"
            [] \E x \in 1..3 : e.cov[x] < 0 \/ e.gau[x] < 0 -> "negative-error"
            [] k.kind = "fine" /\ \E x \in 1..3 : e.gau[x] < e.cov[x] \/ e.gau[x] > 3 * e.cov[x] + 30 -> "gaussian-errors"
            [] OTHER -> ""
PicksReject(k, e) ==
  IF Which(k, e.t) = {} THEN "no-such-source"
  ELSE LET q == k.src[TheOne(k, e.t)]
           P == RangeOf(e.pk)
           tol(p) == IF Wave(k) THEN 5000 ELSE (k.sig[k.ph[p.c]] * (IF k.kind = "fine" THEN 28 ELSE 80)) \div 100 + k.smp
       IN CASE Len(e.pk) # Cardinality({p.c : p \in P}) \/ {p.c : p \in P} # RangeOf(k.av) -> "picks-missing"
            [] \E p \in P : AbsS(p.model - q.arr[p.c]) > 2 * Late(k) -> "modelled-arrival"
            [] \E p \in P : p.got /\ AbsS(p.pick - q.arr[p.c]) > tol(p) -> "picked-arrival"
            [] k.kind = "fine" /\ \E p \in P : ~p.got -> "not-picked"
            [] k.kind = "fine" /\ \E p \in P : (p.err * 10 < 8 * k.sig[k.ph[p.c]] \/ p.err * 10 > 17 * k.sig[k.ph[p.c]]) -> "pick-error"
            [] OTHER -> ""
Stages == {"detect", "trigger", "locate"}
Times(st, g) == LET S == {f.t : f \in {f \in st : f.stage = g}} IN SetToSeq(S)
TStart(k) == {}
TReject(k, st, e) ==
  CASE e.e = "found" -> FoundReject(k, st, e)
    [] e.e = "gauss" -> GaussReject(k, e)
    [] e.e = "picks" -> PicksReject(k, e)
    [] e.e = "end" -> IF \E g \in Stages : ~OneEach(Ts(k), Times(st, g), k.mw) THEN "not-one-each" ELSE ""
    [] OTHER -> "unknown-event"
TStep(k, st, e) == IF e.e = "found" THEN st \cup {[stage |-> e.stage, t |-> e.t]} ELSE st
CaseAt(j) == Cases[j]
RT == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == RT!Init
TNext == RT!Next
=============================================================================
