-------------------------------- MODULE Archive --------------------------------
(***************************************************************************)
(* A waveform archive: records r of a channel, r.k..r.k+r.n-1 on the         *)
(* channel's sample grid, each kept in the file of day r.day; r.ver tells    *)
(* apart records that hold different values for the same time.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Slots(r) == r.k..(r.k + r.n - 1)
DaysOf(lo, hi, per) == (lo \div per)..(hi \div per)
InRange(r, lo, hi) == {t \in lo..hi : t >= r.k /\ t < r.k + r.n}
\* samples every reader of lo..hi has to deliver, and those it may
Must(recs, lo, hi, per) ==
  UNION {InRange(r, lo, hi) : r \in {x \in recs : x.day \in DaysOf(lo, hi, per)}}
May(recs, lo, hi) == UNION {InRange(r, lo, hi) : r \in recs}
VersAt(recs, t) == {r.ver : r \in {x \in recs : t \in Slots(x)}}
Overlap(r, q) == r.k <= q.k + q.n - 1 /\ q.k <= r.k + r.n - 1
Touch(r, q) == r.k <= q.k + q.n /\ q.k <= r.k + r.n
Conflict(recs) == \E r, q \in recs : r.ver # q.ver /\ Overlap(r, q)
=============================================================================
