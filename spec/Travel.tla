------------------------------- MODULE Travel -------------------------------
(***************************************************************************)
(* Tables of traveltimes made from a velocity model.                         *)
(*                                                                           *)
(* A model is a sequence of layers [d, v]: depth of the top (m, downwards,    *)
(* increasing) and velocity (m/s) there.                                      *)
(*                                                                           *)
(* Fast marching: times grow from the node nearest to the station, no faster   *)
(* and no slower than the model's velocities let them.                         *)
(*                                                                           *)
(* NonLinLoc: a section g = [z0, dx, v] with its origin below the station at    *)
(* depth z0, cells of dx, and v[i][k] the time (1000ths) at distance (i-1)*dx    *)
(* and depth z0 + (k-1)*dx; the table is interpolated in it at the distance and   *)
(* the depth of every node.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AbsT(x) == IF x < 0 THEN -x ELSE x
(* velocity at depth z: constant above and below the model, linear between layers *)
VelAt(lay, z) ==
  LET n == Len(lay)
      below == {i \in 1..n : lay[i].d <= z}
      i == Cardinality(below)
  IN IF i = 0 THEN lay[1].v
     ELSE IF i = n THEN lay[n].v
     ELSE lay[i].v + ((lay[i+1].v - lay[i].v) * (z - lay[i].d)) \div (lay[i+1].d - lay[i].d)

(* Positions x, z within a section in thousandths of its cells. *)
Corner(v, i, k) == v[IF i + 1 > Len(v) THEN Len(v) ELSE i + 1][IF k + 1 > Len(v[1]) THEN Len(v[1]) ELSE k + 1]
Interp(v, x, z) ==
  LET i == x \div 1000
      fx == x % 1000
      k == z \div 1000
      fz == z % 1000
      row(q) == Corner(v, i, q) * 1000 + (Corner(v, i + 1, q) - Corner(v, i, q)) * fx
  IN (row(k) * (1000 - fz) + row(k + 1) * fz) \div 1000
(* the section reaches position x, z *)
InSection(v, x, z) == x >= 0 /\ z >= 0 /\ x <= 1000 * (Len(v) - 1) /\ z <= 1000 * (Len(v[1]) - 1)
(* how much the interpolated time changes over a thousandth of a cell, at most *)
Steep(v, x, z) ==
  LET i == x \div 1000
      k == z \div 1000
      cs == {Corner(v, a, b) : a \in {i - 1, i, i + 1, i + 2} \cap Nat, b \in {k - 1, k, k + 1, k + 2} \cap Nat}
      top == CHOOSE m \in cs : \A q \in cs : q <= m
      low == CHOOSE m \in cs : \A q \in cs : q >= m
  IN top - low

(* Layers as NonLinLoc is told them: the model's, each with its gradient to the next (in *)
(* 1e-5 per second) or without.                                                          *)
LayersTold(lay, told, blocks) ==
  /\ Len(told) = Len(lay)
  /\ \A i \in 1..Len(lay) :
       /\ AbsT(told[i].d - lay[i].d) <= 1 /\ AbsT(told[i].v - lay[i].v) <= 1
       /\ IF blocks \/ i = Len(lay) THEN told[i].g = 0
          ELSE AbsT(told[i].g * ((lay[i+1].d - lay[i].d) \div 10) - (lay[i+1].v - lay[i].v) * 10000)
                 <= 2 + (lay[i+1].d - lay[i].d) + AbsT(told[i].g)

(* Fast marching on the nodes i = <<a, b, c>> of a grid n with cells h (m); t in 10 us. *)
Axis(n, i, a, o) == LET j == [i EXCEPT ![a] = @ + o] IN IF j[a] >= 1 /\ j[a] <= n[a] THEN {j} ELSE {}
Near(n, i) == UNION {Axis(n, i, a, o) : a \in 1..3, o \in {-1, 1}}
(* how steep t is towards smaller times along axis a, in 1e-5 s over the cell *)
Drop(t, n, i, a) ==
  LET down == {t[i] - t[j] : j \in Axis(n, i, a, 1) \cup Axis(n, i, a, -1)}
  IN CHOOSE m \in down \cup {0} : \A q \in down \cup {0} : q <= m
(* vel: velocity of every level. The gradient times the velocity is one, here to within 40 % *)
(* of the velocities around the node.                                                       *)
Front(t, n, h, vel, src, i) ==
  IF i = src \/ src \in Near(n, i) THEN t[i] >= 0
  ELSE LET vs == {vel[j[3]] : j \in Near(n, i) \cup {i}}
           top == CHOOSE x \in vs : \A y \in vs : y <= x
           low == CHOOSE x \in vs : \A y \in vs : y >= x
           M(x, a) == ((Drop(t, n, i, a) * x) \div h[a]) \div 100
       IN /\ M(top, 1)*M(top, 1) + M(top, 2)*M(top, 2) + M(top, 3)*M(top, 3) >= 360000
          /\ M(low, 1)*M(low, 1) + M(low, 2)*M(low, 2) + M(low, 3)*M(low, 3) <= 1960000
=============================================================================
