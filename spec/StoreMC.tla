-------------------------------- MODULE StoreMC --------------------------------
(***************************************************************************)
(* The integer encoding on a small scale: W-bit words, factor F, values in   *)
(* units of 1/U. Writing clips, scales, rounds half to even and must fit;    *)
(* decoding gives the value back within half a step.                         *)
(***************************************************************************)
EXTENDS Store
CONSTANTS U, F, Top, Word
VARIABLES v, w, d, st
\* scaled down: Cap stands for the largest whole value that fits
SCap == Word \div F
Init == v \in 0..(Top * U) /\ w = 0 /\ d = 0 /\ st = "new"
RoundEven(n, m) == LET q == n \div m r == n % m
                   IN IF 2 * r < m \/ (2 * r = m /\ q % 2 = 0) THEN q ELSE q + 1
Write == st = "new" /\ w' = RoundEven((IF v > SCap * U THEN SCap * U ELSE v) * F, U)
         /\ st' = "stored" /\ UNCHANGED <<v, d>>
Read == st = "stored" /\ d' = (w * U) \div F /\ st' = "read" /\ UNCHANGED <<v, w>>
Next == Write \/ Read
NoWrap == w \in 0..Word
RoundTrip == st = "read" =>
   LET c == IF v > SCap * U THEN SCap * U ELSE v
   IN Near(<<d \div U, d % U>>, <<c \div U, c % U>>, U, U \div F)
Monotone == st = "stored" => (v <= SCap * U => w * U <= v * F + U)
=============================================================================
