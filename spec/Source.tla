------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* What the three stages are for: an event that is recorded well is found,   *)
(* located where it was and timed when it was. Positions are in hundredths   *)
(* of a node, times in units of 0.1 ms.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AbsS(x) == IF x < 0 THEN -x ELSE x
MaxS(a, b) == IF a > b THEN a ELSE b
MinS(a, b) == IF a < b THEN a ELSE b

\* the sources an event at time t can be: within a marginal window
OfTime(src, t, mw) == {i \in DOMAIN src : AbsS(src[i] - t) <= mw}

\* one marginal window around every source holds one event, and none is elsewhere
OneEach(src, ts, mw) ==
  /\ \A i \in DOMAIN src : Cardinality({j \in DOMAIN ts : AbsS(ts[j] - src[i]) <= mw}) = 1
  /\ \A j \in DOMAIN ts : OfTime(src, ts[j], mw) # {}

\* a one-sigma error along an axis, squared, from those along the principal axes: rows of
\* `dir` are squared direction cosines over `q` (rational), `var` the principal variances
AxisVar(dir, q, var, x) ==
  LET RECURSIVE S(_)
      S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + dir[k][x] * var[k]
  IN S(Len(var)) \div q

Near(p, x, h, z) == AbsS(p[1] - x[1]) <= h /\ AbsS(p[2] - x[2]) <= h /\ AbsS(p[3] - x[3]) <= z
=============================================================================
