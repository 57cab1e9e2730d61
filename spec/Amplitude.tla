-------------------------------- MODULE Amplitude --------------------------------
(***************************************************************************)
(* Amplitude measurements of one event. Times are integers relative to the   *)
(* origin time; a trace is the samples at t0 + k * dt, k \in 0..n-1.         *)
(*   A pick is <<"none">> (no row for the phase), <<"no-pick">> or            *)
(*   <<"pick", t>>; mod[ph] is the modelled arrival, half[ph] the half-width  *)
(*   of the window (marginal window plus fraction of the traveltime).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AMin(a, b) == IF a < b THEN a ELSE b
AMax(a, b) == IF a > b THEN a ELSE b
AAbs(x) == IF x < 0 THEN -x ELSE x

\* the arrival times used for a station: rows is whether it has pick rows at all
Arrivals(rows, p, s, modp, mods) ==
  IF ~rows THEN <<modp, mods>>
  ELSE IF p[1] = "none" \/ s[1] = "none" THEN <<modp, mods>>
  ELSE << IF p[1] = "pick" THEN p[2] ELSE modp, IF s[1] = "pick" THEN s[2] ELSE mods >>
Picked(rows, p, s) == rows /\ (p[1] = "pick" \/ s[1] = "pick")

\* the P and S windows; sig is the signal window
AmpWindows(p, s, hp, hs, sig) ==
  LET p0 == p - hp
      p1 == p + hp
      s0 == s - hs
      s1 == s + hs + sig
      mid == (p1 + s0) \div 2
  IN IF s0 < p1 THEN << <<p0, mid>>, <<mid, s1>> >>
     ELSE << <<p0, AMin(p1 + sig, s0)>>, <<s0, s1>> >>
NoiseWindow(W, noise) == <<W[1][1] - noise, W[1][1]>>

\* a trace <<t0, n>> covers [a, b]: it starts and ends within a sample of it
Covers(tr, dt, a, b) == tr[1] < a + dt /\ tr[1] + (tr[2] - 1) * dt > b - dt
\* ... and clearly (not) so, when its end is given to a sample only
ClearlyCovers(tr, dt, a, b) == tr[1] < a + (dt \div 4) /\ tr[1] + (tr[2] - 1) * dt > b - (dt \div 4)
CannotCover(tr, dt, a, b) == tr[1] > a + 2 * dt \/ tr[1] + (tr[2] - 1) * dt < b - 2 * dt

\* samples nearest to time t, both where it is half-way to within tol
Near(t, t0, dt, tol) ==
  LET q == (t - t0) \div dt
  IN {k \in (q - 1)..(q + 2) : 2 * AAbs(t0 + (k * dt) - t) <= dt + 2 * tol}
\* windows in samples, within samples lo..hi
SampleWindows(w, t0, dt, tol, lo, hi) ==
  {<<AMax(a, lo), AMin(b, hi)>> : a \in Near(w[1], t0, dt, tol), b \in Near(w[2], t0, dt, tol)}

(***************************************************************************)
(* Largest swing. y[k+1] is sample k; the line fitted to samples a..b by     *)
(* least squares is taken off. All values are multiplied by Den.             *)
(***************************************************************************)
Den(n) == n * ((n * n) - 1)
RECURSIVE Slope6(_, _, _, _)
Slope6(y, a, n, i) == IF i = n THEN 0
                      ELSE (((2 * i) - n) + 1) * y[a + i + 1] + Slope6(y, a, n, i + 1)
\* y[j] - y[i] - slope * (j - i), times Den
Rise(y, B, D, i, j) == (D * (y[j + 1] - y[i + 1])) - (B * (j - i))
\* samples i < j with nothing but rise (or fall) between them, and turns at both ends
Up(y, B, D, k) == Rise(y, B, D, k, k + 1) > 0
Turn(y, B, D, a, b, k) == k > a /\ k < b /\ Up(y, B, D, k - 1) # Up(y, B, D, k)
RECURSIVE Swings(_, _, _, _, _, _, _, _)
\* scan from k; last turn at u (-1: none): set of <<i, j, size>>
Swings(y, B, D, a, b, k, u, S) ==
  IF k >= b THEN S
  ELSE IF Turn(y, B, D, a, b, k)
       THEN Swings(y, B, D, a, b, k + 1, k,
                   IF u = -1 THEN S ELSE S \cup {<<u, k, AAbs(Rise(y, B, D, u, k))>>})
       ELSE Swings(y, B, D, a, b, k + 1, u, S)
SwingSet(y, w) ==
  LET n == (w[2] - w[1]) + 1
  IN IF n < 4 THEN {}
     ELSE Swings(y, 6 * Slope6(y, w[1], n, 0), Den(n), w[1], w[2], w[1] + 1, -1, {})
Biggest(S) == CHOOSE x \in S : \A z \in S : z[3] <= x[3]
=============================================================================
