------------------------------ MODULE StaLtaTrace ------------------------------
(***************************************************************************)
(* "int": fn, impl, ns, nl, x (integers), y: outputs in units of 1e-4        *)
(* (-1 where not a number or not finite). "rec": the recursive transform, y  *)
(* and want in units of 1e-6 with the samples the recurrence defines.        *)
(* "real": the outputs for a real signal, err: largest relative deviation    *)
(* from the window means in parts per million, edge: samples without a full  *)
(* window that are not 1, odd: values not finite, n.                         *)
(***************************************************************************)
EXTENDS StaLta, TraceKit
VARIABLES c, l, s, v
PS(x) == LET F[j \in 0..Len(x)] == IF j = 0 THEN 0 ELSE F[j - 1] + x[j] IN F
\* Value with prefix sums
Fast(fn, P, n, ns, nl, i) ==
  IF i < nl \/ (fn = "centred" /\ i + ns > n) THEN One
  ELSE LET L == P[i] - P[i - nl]
           S == IF fn = "classic" THEN P[i] - P[i - ns] ELSE P[i + ns] - P[i]
       IN Ratio(S, ns, L, nl)
OK(y, p) == y >= 0 /\ Within(y * p[2], p[1] * 10000, p[2])
IntReject(e) ==
  LET P == PS(e.x)
      n == Len(e.x)
      bad == {j \in 1..n : ~OK(e.y[j], Fast(e.fn, P, n, e.ns, e.nl, j))}
      j == CHOOSE m \in bad : TRUE
  IN CASE Len(e.y) # n -> "length"
       [] ~e.pure -> "input-changed"
       [] bad = {} -> ""
       [] e.y[j] = -1 -> "not-a-number"
       [] j < e.nl \/ (e.fn = "centred" /\ j + e.ns > n) -> "edge-value"
       [] OTHER -> "window-value"
RecReject(e) ==
  CASE Len(e.y) # Len(e.want) -> "length"
    [] \E j \in DOMAIN e.y : e.y[j] < 0 -> "not-a-number"
    [] \E j \in DOMAIN e.y : ~Within(e.y[j], e.want[j], 2 + e.want[j] \div 100000) -> "recursive-value"
    [] OTHER -> ""
RealReject(e) ==
  CASE e.odd # 0 -> "not-a-number"
    [] e.len # e.n -> "length"
    [] e.edge # 0 -> "edge-value"
    [] e.err > 100 -> "window-value"
    [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) == CASE e.e = "int" -> IntReject(e)
                       [] e.e = "rec" -> RecReject(e)
                       [] e.e = "real" -> RealReject(e)
                       [] OTHER -> "unknown-event"
TStep(k, st, e) == st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
