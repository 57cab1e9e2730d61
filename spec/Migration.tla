------------------------------ MODULE Migration ------------------------------
(***************************************************************************)
(* Migrating and stacking onset functions, and finding the peak over the    *)
(* grid. Onset values are handled by their logarithms, which are integers   *)
(* here; a value below the migration floor is the token Floor. A stack is   *)
(* <<s, f>>: the sum of the integer logarithms and how many floors.         *)
(*                                                                          *)
(*   on[o][t]   logarithm of onset o at sample t (1-based)                  *)
(*   tt[v][o]   traveltime in samples from node v for onset o               *)
(*   first      samples before the scanned window                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Floor == -99
Max0(x) == IF x < 0 THEN 0 ELSE x

\* the sample of onset o that belongs to node v at scanned sample t
At(on, tt, first, v, o, t) == on[o][first + Max0(tt[v][o]) + t]

RECURSIVE StackTo(_, _, _, _, _, _)
StackTo(on, tt, first, v, o, t) ==
  IF o = 0 THEN <<0, 0>>
  ELSE LET r == StackTo(on, tt, first, v, o - 1, t)
           x == At(on, tt, first, v, o, t)
       IN IF x = Floor THEN <<r[1], r[2] + 1>> ELSE <<r[1] + x, r[2]>>
Stack(on, tt, first, v, t) == StackTo(on, tt, first, v, Len(on), t)

-----------------------------------------------------------------------------
(* The peak of one sample of a map m (sequence over nodes)                  *)
MaxOver(m) == CHOOSE x \in {m[v] : v \in DOMAIN m} : \A v \in DOMAIN m : m[v] <= x
Lowest(m) == CHOOSE v \in DOMAIN m : m[v] = MaxOver(m) /\ \A u \in DOMAIN m :
                                       u < v => m[u] < m[v]
RECURSIVE SumOver(_, _)
SumOver(m, n) == IF n = 0 THEN 0 ELSE m[n] + SumOver(m, n - 1)
=============================================================================
