-------------------------------- MODULE Pads --------------------------------
(***************************************************************************)
(* Windows of data for migration. A window of L samples is to be scanned;    *)
(* the data read for it begin `pre` samples before it and end `post` samples  *)
(* after it. Onsets are migrated at the scanned samples and up to tt samples   *)
(* later, and the onset at a sample comes from nl samples up to it and, if     *)
(* centred, from ns samples after it. None of the data it comes from may be     *)
(* in the cosine taper at the ends, which is 5 % of the data at either end.      *)
(* All in samples, numbered from 0 within the data.                            *)
(***************************************************************************)
EXTENDS Integers
CeilDiv(a, b) == (a + b - 1) \div b
(* samples in the taper at either end, at most and at least *)
TaperMax(n) == CeilDiv(n, 20)
TaperMin(n) == (n \div 20) - 1
First(w, i) == i - w.nl + 1
Last(w, i) == IF w.centred THEN i + w.ns ELSE i
Sound(w, n, i) == First(w, i) >= TaperMax(n) /\ Last(w, i) < n - TaperMax(n)
Spoilt(w, n, i) == First(w, i) < TaperMin(n) \/ Last(w, i) >= n - TaperMin(n)
(* first and last sample that is migrated *)
UseLo(pre) == pre
UseHi(pre, L, tt) == pre + L - 1 + tt
Covered(w, pre, L, post, tt) ==
  LET n == pre + L + post
  IN /\ UseHi(pre, L, tt) < n
     /\ Sound(w, n, UseLo(pre)) /\ Sound(w, n, UseHi(pre, L, tt))

(* What is documented. Window lengths and traveltimes are in ticks, F to a  *)
(* sample; the sampling rate is R.                                           *)
Samples(x, F) == (2 * x + F) \div (2 * F)                  \* nearest
Window(sta, lta, centred, F) == [ns |-> Samples(sta, F) + 1, nl |-> Samples(lta, F) + 1, centred |-> centred]
Pre(sta, lta) == lta + 3 * sta
Post(lta, tt, F, R) == CeilDiv(tt + 2 * lta, F * R) * F * R    \* whole seconds
More(span, F, R) == CeilDiv(6 * span, 100 * F * R) * F * R     \* whole seconds
PadsOf(sta, lta, tt, span, F, R) ==
  LET pre == Pre(sta, lta)
      post == Post(lta, tt, F, R)
      more == More(span + pre + post, F, R)
  IN <<CeilDiv(pre + more, F), CeilDiv(post + more, F)>>
=============================================================================
