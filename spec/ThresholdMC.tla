---------------------------- MODULE ThresholdMC ----------------------------
(***************************************************************************)
(* The windowed threshold as an algorithm that walks the trace window by    *)
(* window, checked on every small trace against what the threshold is meant *)
(* to be: a function of the samples of the sample's own window only, at     *)
(* least half of which are at or below it when the multiplier is not        *)
(* negative (MAD) or at least one (median ratio).                           *)
(***************************************************************************)
EXTENDS Trigger, FiniteSets, TLC
CONSTANTS N, Vals, Wins, Mults
VARIABLES x, w, m, meth, start, thr, done
vars == <<x, w, m, meth, start, thr, done>>
Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
\* thresholds scaled by 40000 so that they are integers (mult in halves)
ThrOf(vals, mt, mm) ==
  LET tm == TwiceMedian(vals)
  IN IF mt = "median_ratio" THEN 10000 * mm * tm
     ELSE 20000 * tm
          + 7413 * mm * TwiceMedian([j \in 1..Len(vals) |-> Abs(2 * vals[j] - tm)])
Init == /\ x \in [1..N -> Vals] /\ w \in Wins /\ m \in Mults
        /\ meth \in {"mad", "median_ratio"}
        /\ start = 1 /\ thr = <<>> /\ done = FALSE
\* one window: every one of its samples gets the window's threshold
Window == /\ start <= N
          /\ LET e == Min2(start + w - 1, N)
                 h == ThrOf(SubSeq(x, start, e), meth, m)
             IN /\ thr' = thr \o [j \in 1..(e - start + 1) |-> h]
                /\ start' = e + 1
          /\ UNCHANGED <<x, w, m, meth, done>>
Finish == start > N /\ ~done /\ done' = TRUE /\ UNCHANGED <<x, w, m, meth, start, thr>>
Next == Window \/ Finish
Spec == Init /\ [][Next]_vars
OneEach == Len(thr) = start - 1 /\ (done => Len(thr) = N)
Own(j) == LET k == (j - 1) \div w IN {i \in 1..N : (i - 1) \div w = k}
\* a median splits the window: at least half of it is at or below, at least half at or above
IsTwiceMedian(t, S) == /\ 2 * Cardinality({i \in S : 2 * x[i] <= t}) >= Cardinality(S)
                       /\ 2 * Cardinality({i \in S : 2 * x[i] >= t}) >= Cardinality(S)
HalfBelow == done => \A j \in 1..N :
  (meth = "mad" \/ m >= 2) =>
     2 * Cardinality({i \in Own(j) : 40000 * x[i] <= thr[j]}) >= Cardinality(Own(j))
MedianRight == done => \A j \in 1..N :
  LET S == Own(j) q == SubSeq(x, ((j - 1) \div w) * w + 1, Min2(((j - 1) \div w + 1) * w, N))
  IN IsTwiceMedian(TwiceMedian(q), S)
\* samples of one window share a threshold
SameInWindow == done => \A i, j \in 1..N : (i - 1) \div w = (j - 1) \div w => thr[i] = thr[j]
=============================================================================
