------------------------------ MODULE SourceMC ------------------------------
(***************************************************************************)
(* Sources at nodes of a small section and stations on its surface. Every     *)
(* station-phase has an onset that rises to H at its arrival and falls off to *)
(* both sides; detect keeps, at each time, the largest stack and its node,     *)
(* trigger what is above the threshold, joined and reduced to its maximum,    *)
(* locate the largest stack within the marginal window of it.                 *)
(* Invariants: the stack is largest at the source and its time, nowhere else   *)
(* unless no station can tell (Blind); every source is found once, by each     *)
(* stage, at its node and time; missing columns change nothing as long as the  *)
(* rest can tell; the errors along the axes do not depend on the order in      *)
(* which the principal axes are listed and keep their sum.                     *)
(* MODE "shifted" (one column at its neighbour's traveltime) and "unordered"    *)
(* (principal errors given to the axes as they come) violate them.             *)
(***************************************************************************)
EXTENDS Source, TLC
CONSTANTS MODE, NX, NZ, H, Stations, T, MW, NSrc, Vars
VARIABLES src, av, st, coa, trig, loc, err
vars == <<src, av, st, coa, trig, loc, err>>

Nodes == (1..NX) \X (1..NZ)
\* the time of a wave that goes along the grid, twice as slow for the second phase
Cols == {<<s, p>> : s \in Stations, p \in {1, 2}}
TT(x, c) == c[2] * (AbsS(x[1] - c[1]) + x[2])
Served(x, c) ==
  IF MODE = "shifted" /\ c = CHOOSE k \in Cols : \A m \in Cols : m[1] >= k[1] /\ (m[1] = k[1] => m[2] <= k[2])
  THEN TT(<<NX + 1 - x[1], x[2]>>, c) ELSE TT(x, c)
Bump(d) == MaxS(0, H - AbsS(d))
Onset(ss, c, t) == LET B == {Bump(t - (s.t + TT(s.x, c))) : s \in ss} IN CHOOSE b \in B : \A q \in B : q <= b
RECURSIVE Sum(_, _, _, _)
Sum(C, ss, x, t) == IF C = {} THEN 0
                    ELSE LET c == CHOOSE q \in C : TRUE
                         IN Onset(ss, c, t + Served(x, c)) + Sum(C \ {c}, ss, x, t)
Stack(ss, C, x, t) == Sum(C, ss, x, t)
\* nodes no column of C can tell from x, whatever the time
Same(C, x, y) == \E d \in -20..20 : \A c \in C : TT(x, c) = TT(y, c) + d
Tells(C) == \A x, y \in Nodes : x # y => ~Same(C, x, y)

MaxOf(S) == CHOOSE m \in S : \A q \in S : q <= m
Init == /\ src \in {{[x |-> x, t |-> t]} : x \in Nodes, t \in {T}}
           \cup (IF NSrc = 2 THEN {{[x |-> x, t |-> T], [x |-> y, t |-> T + 6 * MW]} : x \in Nodes, y \in Nodes} ELSE {})
        /\ av \in {Cols} \cup {Cols \ {c} : c \in Cols}
        /\ Tells(av)
        /\ st = "detect" /\ coa = <<>> /\ trig = {} /\ loc = {}
        /\ err \in Vars \X Vars
Span == 1..(T + 10 * MW)
Detect == /\ st = "detect"
          /\ coa' = [t \in Span |-> LET m == MaxOf({Stack(src, av, x, t) : x \in Nodes})
                                    IN [v |-> m, x |-> {x \in Nodes : Stack(src, av, x, t) = m}]]
          /\ st' = "trigger" /\ UNCHANGED <<src, av, trig, loc, err>>
Thr == (H - 1) * Cardinality(av)
\* maxima above the threshold, none with a larger one, or an earlier equal one, near it
Trigger == /\ st = "trigger"
           /\ trig' = {t \in Span : /\ coa[t].v > Thr
                                    /\ \A u \in Span : (AbsS(u - t) <= 2 * MW /\ u # t)
                                         => (coa[u].v < coa[t].v \/ (coa[u].v = coa[t].v /\ u > t))}
           /\ st' = "locate" /\ UNCHANGED <<src, av, coa, loc, err>>
Locate == /\ st = "locate"
          /\ loc' = {LET W == (t - MW)..(t + MW)
                         m == MaxOf({Stack(src, av, x, u) : x \in Nodes, u \in W})
                         P == {p \in Nodes \X W : Stack(src, av, p[1], p[2]) = m}
                     IN [v |-> m, p |-> P] : t \in trig}
          /\ st' = "done" /\ UNCHANGED <<src, av, coa, trig, err>>
Next == Detect \/ Trigger \/ Locate \/ (st = "done" /\ UNCHANGED vars)

Found == st # "detect" => \A s \in src : coa[s.t].v = H * Cardinality(av) /\ coa[s.t].x = {s.x}
Highest == st # "detect" => \A t \in Span : coa[t].v = H * Cardinality(av) => \E s \in src : s.t = t
Triggered == st \in {"locate", "done"} => trig = {s.t : s \in src}
Located == st = "done" => loc = {[v |-> H * Cardinality(av), p |-> {<<s.x, s.t>>}] : s \in src}
Once == st = "done" => Cardinality(loc) = Cardinality(src)
\* principal errors err[1], err[2] along directions turned by a quarter, or by the angle of a
\* 3-4-5 triangle: squared cosines over 25
Dirs == {<<<<25, 0>>, <<0, 25>>>>, <<<<9, 16>>, <<16, 9>>>>, <<<<16, 9>>, <<9, 16>>>>, <<<<0, 25>>, <<25, 0>>>>}
Give(d, e, x) == IF MODE = "unordered" THEN e[x] ELSE AxisVar(d, 25, e, x)
Swap(q) == <<q[2], q[1]>>
Errors == \A d \in Dirs : \A x \in 1..2 :
            /\ Give(d, <<25 * err[1], 25 * err[2]>>, x) = Give(Swap(d), <<25 * err[2], 25 * err[1]>>, x)
            /\ Give(d, <<25 * err[1], 25 * err[2]>>, 1) + Give(d, <<25 * err[1], 25 * err[2]>>, 2) = 25 * (err[1] + err[2])
=============================================================================
