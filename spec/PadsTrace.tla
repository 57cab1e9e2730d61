------------------------------ MODULE PadsTrace ------------------------------
(***************************************************************************)
(* Case: wins (phase -> ns, nl, centred), tt (largest traveltime in samples, *)
(* rounded up). Numbers ending in 4 are in 1e-4 of a sample.                  *)
(* "pad": pads of an onset object for a span of L samples: pre4, post4.       *)
(* "win": data handed to the onsets for a window of L samples to be scanned:  *)
(* pre4, post4 (what of it is before and after the window), n (samples in the  *)
(* onsets), avail, complete (whether the archive has all data), told (whether   *)
(* the timespan was given, so that onsets from tapered data are to be one),      *)
(* cols: the phase, the first and last sample whose onset isn't exactly one,     *)
(* how many are between them.                                                    *)
(* "end": number of windows there had to be, and were; samples of the output.     *)
(***************************************************************************)
EXTENDS Pads, TraceKit
VARIABLES c, l, s, v
Tol == 5
WholeS(x4) == Within(x4 % 10000, 0, Tol) \/ Within(x4 % 10000, 10000, Tol)
N4(x4) == (x4 + 5000) \div 10000
AllCovered(k, pre, L, post) == \A i \in DOMAIN k.wins : Covered(k.wins[i], pre, L, post, k.tt)
PadReject(k, e) ==
  CASE ~WholeS(e.pre4) \/ ~WholeS(e.post4) -> "pad-not-whole"
    [] ~AllCovered(k, N4(e.pre4), e.L, N4(e.post4)) -> "pad-short"
    [] OTHER -> ""
ColReject(k, e, q) ==
  LET w == k.wins[q.ph]
      pre == N4(e.pre4)
  IN CASE q.lo > UseLo(pre) \/ q.hi < UseHi(pre, e.L, k.tt) -> "no-onset-where-migrated"
       [] q.odd > 0 -> "onset-missing-inside"
       [] e.told /\ (Spoilt(w, e.n, q.lo) \/ Spoilt(w, e.n, q.hi)) -> "onset-of-tapered-data"
       [] ~e.told /\ (First(w, q.lo) < 0 \/ Last(w, q.hi) >= e.n) -> "onset-without-data"
       [] OTHER -> ""
WinReject(k, e) ==
  LET bad == {i \in DOMAIN e.cols : ColReject(k, e, e.cols[i]) # ""}
  IN CASE ~WholeS(e.pre4) \/ ~WholeS(e.post4) -> "window-off-grid"
       [] ~AllCovered(k, N4(e.pre4), e.L, N4(e.post4)) -> "window-short"
       [] e.raised # "" -> "no-onsets:" \o e.raised
       [] e.n # N4(e.pre4) + e.L + N4(e.post4) -> "length"
       [] \E i \in DOMAIN e.avail : e.avail[i] # e.want[i] -> "availability"
       [] bad # {} -> ColReject(k, e, e.cols[CHOOSE i \in bad : TRUE])
       [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) ==
  CASE e.e = "pad" -> PadReject(k, e)
    [] e.e = "win" -> WinReject(k, e)
    [] e.e = "end" -> CASE e.windows # st -> "windows-missing"
                        [] e.out # e.outwant -> "output-samples"
                        [] OTHER -> ""
    [] OTHER -> "unknown-event"
TStep(k, st, e) == CASE e.e = "win" -> st + 1 [] e.e = "end" -> 0 [] OTHER -> st
CaseAt(j) == Cases[j]
RT == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == RT!Init
TNext == RT!Next
=============================================================================
