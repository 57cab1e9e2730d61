----------------------------- MODULE MagnitudeTrace -----------------------------
(***************************************************************************)
(* Magnitudes, errors and logarithms in thousandths, Nil where not a number. *)
(* case: obs, sequence of observations of Magnitude.tla with                 *)
(*   la    log10 of the amplitude times the multiplier                       *)
(*   att   attenuation at the distance used; cor  station correction         *)
(*   er    the error they give, in units of 1e-5                              *)
(*   up,lo log10 of amplitude plus / minus noise, times the multiplier        *)
(*   ln    log10 of the noise, corrected for the gain, times the multiplier   *)
(* "mags": ml, mle per observation; pure: the table given is unchanged and    *)
(*   its columns are carried over                                            *)
(* "mean": f, weighted, r2all, rows (observations kept), used (rows marked),  *)
(*   kept: recorded amplitudes, distances and magnitudes carried over         *)
(* "file", "event": what LocalMag left behind (differences counted)           *)
(***************************************************************************)
EXTENDS Magnitude, TraceKit
VARIABLES c, l, s, v
Nil == -99999999
ML(o) == o.la + o.att + o.cor
MLErr(o) == o.up - o.lo
\* what the magnitude calculation has to give: present
HasML(k, o) == Usable([hyp |-> k.hyp], o)
MagsReject(k, e) ==
  LET n == Len(k.obs)
      bad(P(_)) == {i \in 1..n : ~P(i)}
      there(i) == Measured(k.obs[i]) => ((e.ml[i] # Nil) <=> HasML(k, k.obs[i]))
      right(i) == (e.ml[i] # Nil /\ k.obs[i].amp > 0 /\ Sq([hyp |-> k.hyp], k.obs[i]) > 0)
                  => Within(e.ml[i], ML(k.obs[i]), 3)
      err(i) == (e.ml[i] # Nil /\ HasML(k, k.obs[i]) /\ k.obs[i].lo # Nil)
                 => Within(e.mle[i], MLErr(k.obs[i]), 4)
      none(i) == (k.obs[i].amp <= 0 \/ Sq([hyp |-> k.hyp], k.obs[i]) <= 0) => e.ml[i] = Nil
  IN CASE Len(e.ml) # n -> "rows"
       [] bad(none) # {} -> "magnitude-without-amplitude"
       [] bad(there) # {} -> "magnitude-missing"
       [] bad(right) # {} -> "magnitude"
       [] bad(err) # {} -> "magnitude-error"
       [] ~e.pure -> "table-altered"
       [] OTHER -> ""
FOf(e) == [e.f EXCEPT !.skip = RangeOf(e.f.skip)]
U(k, e) == {i \in DOMAIN k.obs : Used(FOf(e), k.obs[i])}
SumOver(S, F(_)) == LET q == SetToSeq(S)
                        G[j \in 0..Len(q)] == IF j = 0 THEN 0 ELSE G[j - 1] + F(q[j])
                    IN G[Len(q)]
Square(x) == x * x
MeanReject(k, e) ==
  LET S == U(k, e)
      n == Cardinality(S)
      o(i) == k.obs[i]
      ref == ML(o(CHOOSE i \in S : TRUE))
      e0 == LET E == {o(i).er : i \in S} IN CHOOSE x \in E : \A y \in E : x <= y
      w(i) == IF e.weighted THEN (((10000 * e0) \div o(i).er) * e0) \div o(i).er ELSE 10000
      W == SumOver(S, w)
      mean == ref + (SumOver(S, LAMBDA i : w(i) * (ML(o(i)) - ref)) \div W)
      p(i) == (w(i) * 10000) \div W
      \* the mean square deviation
      dev == SumOver(S, LAMBDA i : p(i) * (Square(ML(o(i)) - mean) \div 100)) \div 100
      spread == SumOver(S, LAMBDA i : Square(ML(o(i)) - mean) \div 5000)
      \* observations in the fit: used, or expected well above the noise
      fit == IF ~e.r2all THEN S
             ELSE {i \in DOMAIN k.obs :
                     LET x == o(i)
                         g == [FOf(e) EXCEPT !.noise = 0, !.pick = FALSE]
                     IN /\ Measured(x) /\ Passes(g, x)
                        /\ \/ Passes([g EXCEPT !.noise = e.f.noise], x)
                           \/ (mean - x.att) - (x.ln + x.cor) >= 699}
      A == SumOver(fit, LAMBDA i : o(i).la + o(i).cor) \div Cardinality(fit)
      V == SumOver(fit, LAMBDA i : Square(o(i).la + o(i).cor - A))
      M == SumOver(fit, LAMBDA i : Square(o(i).la + o(i).cor - (mean - o(i).att)))
      unclear == \/ \E i \in fit : Sq(e.f, o(i)) = 0 \/ o(i).amp = 0
                 \/ e.r2all /\ \E i \in DOMAIN k.obs :
                      Within((mean - o(i).att) - (o(i).ln + o(i).cor), 699, 6)
  IN CASE e.rows # SortSeq(SetToSeq({i \in DOMAIN k.obs : Measured(o(i))}), LAMBDA a, b : a < b) -> "rows-kept"
       [] RangeOf(e.used) # S -> "used"
       [] ~e.kept -> "observation-altered"
       [] ~e.pure -> "table-altered"
       [] S = {} -> IF e.mean = Nil /\ e.err = Nil /\ e.r2 = Nil THEN "" ELSE "magnitude-of-nothing"
       [] e.mean = Nil -> "no-magnitude"
       [] ~Within(e.mean, mean, 5) -> "mean"
       [] n = 1 /\ ~Within(e.err, MLErr(o(CHOOSE i \in S : TRUE)), 4) -> "single-error"
       [] n > 1 /\ (e.err < 0 \/ e.err > 20000 \/ ~Within(e.err * e.err, dev, 200 + spread + (dev \div 15))) -> "deviation"
       [] unclear -> ""
       [] Cardinality(fit) < 2 \/ V = 0 -> IF e.r2 = Nil \/ V < 20 THEN "" ELSE "r2-of-nothing"
       [] V < 40000 -> ""
       [] e.r2 = Nil -> "no-r2"
       [] M > 50 * V -> ""
       [] ~Within(e.r2 * (V \div 1000), V - M, 3000 + (V \div 50) + (M \div 50)) -> "r2"
       [] OTHER -> ""
LeftReject(e) == CASE e.table # 0 -> "amplitude-file"
                   [] e.event # 0 -> "event-magnitude"
                   [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) == CASE e.e = "mags" -> MagsReject(k, e)
                       [] e.e = "mean" -> MeanReject(k, e)
                       [] e.e = "left" -> LeftReject(e)
                       [] e.e = "refuse" -> \* an ill-defined fit is refused, not guessed
                            IF (e.raised = "AttributeError") = (U(k, e) # {}) THEN "" ELSE "r2-not-refused"
                       [] OTHER -> "unknown-event"
TStep(k, st, e) == st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
