--------------------------------- MODULE StaLta ---------------------------------
(***************************************************************************)
(* Ratios of a short-window mean (ns samples) to a long-window mean (nl      *)
(* samples) of a non-negative signal x, as <<numerator, denominator>>.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Sum(_, _, _)
Sum(x, a, b) == IF a > b THEN 0 ELSE x[a] + Sum(x, a + 1, b)
One == <<1, 1>>
Ratio(S, ns, L, nl) == IF L = 0 THEN One ELSE <<S * nl, L * ns>>
\* the long window ends at sample i; the short one ends there too
Classic(x, ns, nl, i) ==
  IF i < nl THEN One ELSE Ratio(Sum(x, i - ns + 1, i), ns, Sum(x, i - nl + 1, i), nl)
\* the short window starts after sample i
Centred(x, ns, nl, i) ==
  IF i < nl \/ i + ns > Len(x) THEN One
  ELSE Ratio(Sum(x, i + 1, i + ns), ns, Sum(x, i - nl + 1, i), nl)
Value(fn, x, ns, nl, i) == IF fn = "classic" THEN Classic(x, ns, nl, i) ELSE Centred(x, ns, nl, i)
=============================================================================
