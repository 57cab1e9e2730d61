------------------------------- MODULE Waveforms -------------------------------
(***************************************************************************)
(* Pieces of waveform t: channel t.id, first sample at tick t.s, t.n samples  *)
(* t.p ticks apart, t.flat when all its values are equal. The window is       *)
(* 0..W. A setting o: allow_gaps, full (whole window wanted), csr and rate    *)
(* (all at o.rate ticks per sample), ends (exactly the window), all and       *)
(* count (every channel, that many).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

End(t) == t.s + (t.n - 1) * t.p
Of(T, i) == {t \in T : t.id = i}
IdsOf(T) == {t.id : t \in T}
Laps(x, y) == x.s <= End(y) /\ y.s <= End(x)
\* neighbours in time
Follows(y, x, S) == /\ x.s < y.s
                    /\ ~\E z \in S : x.s < z.s /\ z.s < y.s
Flatline(S) == \E t \in S : t.flat
Overlapped(S) == \E x, y \in S : x # y /\ Laps(x, y)
Gapped(S) == \E x, y \in S : Follows(y, x, S) /\ y.s - End(x) > x.p
Whole(S, W) == Cardinality(S) = 1 /\ \A t \in S : (t.n - 1) * t.p >= W
Exact(S, W) == Cardinality(S) = 1 /\ \A t \in S : t.s = 0 /\ End(t) = W
ChannelOK(S, o, W) ==
  /\ ~Flatline(S)
  /\ ~Overlapped(S)
  /\ (o.gaps \/ ~Gapped(S))
  /\ (o.csr => \A t \in S : t.p = o.rate)
  /\ (o.full => Whole(S, W))
  /\ (o.ends => Exact(S, W))
Good(T, o, W) == {i \in IdsOf(T) : ChannelOK(Of(T, i), o, W)}
Available(T, o, W) ==
  IF o.all THEN T # {} /\ Good(T, o, W) = IdsOf(T) /\ Cardinality(IdsOf(T)) = o.count
  ELSE Good(T, o, W) # {}

\* bringing a trace to q ticks per sample, with interpolation by u permitted (u > 0) or not
Kind(t, q, u) == IF t.p = q THEN "same"
                 ELSE IF q % t.p = 0 THEN "decimate"
                 ELSE IF u = 0 THEN "left"
                 ELSE IF (u * q) % t.p # 0 THEN "bad"
                 ELSE "interpolate"
CeilTo(x, q) == -((-x) \div q) * q
FloorTo(x, q) == (x \div q) * q
\* first and last grid point of the result inside the window; interpolated data are
\* held over less than one sample at either end of the window
First(t, q, u, W) ==
  LET a == IF Kind(t, q, u) = "interpolate" /\ t.s > 0 /\ t.s < t.p THEN 0 ELSE t.s
  IN IF a < 0 THEN 0 ELSE CeilTo(a, q)
Last(t, q, u, W) ==
  LET b == IF Kind(t, q, u) = "interpolate" /\ End(t) < W /\ W - End(t) < t.p THEN W ELSE End(t)
  IN FloorTo(IF b > W THEN W ELSE b, q)
\* moving a trace that is d ticks past a grid point of a p tick grid: less than half a
\* sample back, more than half forward
Shifts(d, p) == (IF 2 * d <= p THEN {-d} ELSE {}) \cup (IF 2 * d >= p THEN {p - d} ELSE {})
=============================================================================
