------------------------------- MODULE ResampleMC -------------------------------
(***************************************************************************)
(* Bringing one trace to the target rate: start (skip to a sample that is on *)
(* the target grid), thin out, cut to the window; with interpolation first   *)
(* refine and hold the ends. Every result lies on the grid, inside the       *)
(* window, is complete and consists of values at the times they belong to.   *)
(***************************************************************************)
EXTENDS Waveforms, TLC
CONSTANTS Ps, Us, MaxS, MaxN, MaxW
VARIABLES t, q, u, W, out, ph, st
Init == /\ t \in [id : {1}, s : -3..MaxS, n : 1..MaxN, p : Ps, flat : {FALSE}]
        /\ q \in Ps /\ u \in Us /\ W \in 1..MaxW /\ W % q = 0
        /\ t.s % (IF Kind(t, q, u) = "interpolate" /\ t.p % u = 0 THEN t.p \div u ELSE t.p) = 0
        /\ out = <<>> /\ ph = 0 /\ st = "start"
\* out: <<first tick, last tick, step>>
Refine == /\ st = "start" /\ st' = "fine"
          /\ out' = IF Kind(t, q, u) = "interpolate"
                    THEN LET f == t.p \div u
                             a == IF t.s > 0 /\ t.s < t.p THEN 0 ELSE t.s
                             b == IF End(t) < W /\ W - End(t) < t.p THEN W ELSE End(t)
                             \* trimmed to the window on the fine grid
                         IN <<IF a < 0 THEN CeilTo(0 - a, f) + a ELSE a,
                              IF b > W THEN b - CeilTo(b - W, f) ELSE b, f>>
                    ELSE <<t.s, End(t), t.p>>
          /\ UNCHANGED <<t, q, u, W, ph>>
Skip == /\ st = "fine" /\ Kind(t, q, u) \in {"decimate", "interpolate"}
        /\ st' = "aligned"
        /\ out' = <<out[1] + ((0 - out[1]) % q), out[2], out[3]>>
        /\ UNCHANGED <<t, q, u, W, ph>>
Thin == /\ st = "aligned" /\ st' = "thin"
        /\ out' = <<out[1], out[1] + FloorTo(out[2] - out[1], q), q>>
        /\ UNCHANGED <<t, q, u, W, ph>>
Trim == /\ \/ st = "thin"
           \/ st = "fine" /\ Kind(t, q, u) = "same"
        /\ st' = "done"
        /\ out' = <<IF out[1] < 0 THEN CeilTo(-out[1], q) + out[1] ELSE out[1],
                    IF out[2] > W THEN out[2] - CeilTo(out[2] - W, q) ELSE out[2], q>>
        /\ UNCHANGED <<t, q, u, W, ph>>
Next == Refine \/ Skip \/ Thin \/ Trim
\* u refines by a whole factor
Usable == Kind(t, q, u) # "interpolate" \/ (t.p % u = 0 /\ q % (t.p \div u) = 0)
GridLaw == (st = "done" /\ Usable) => (out[1] > out[2] \/ (out[1] % q = 0 /\ out[2] % q = 0))
SpanLaw == (st = "done" /\ Usable) =>
  LET a == First(t, q, u, W)
      b == Last(t, q, u, W)
  IN IF a > b THEN out[1] > out[2] ELSE out[1] = a /\ out[2] = b
FillLaw == (st = "done" /\ Usable /\ Kind(t, q, u) # "same" /\ t.s <= 0 /\ End(t) >= W) =>
             out = <<0, W, q>>
=============================================================================
