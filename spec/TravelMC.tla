------------------------------ MODULE TravelMC ------------------------------
(***************************************************************************)
(* Design. Part "section": a node anywhere in a section whose origin is      *)
(* anywhere: the cell and the place in the cell both count from the origin.   *)
(* MODE "zero" takes the place in the cell from the position itself, which     *)
(* the properties exclude.                                                    *)
(* Part "march": the front moves over a column of layers, one node accepted     *)
(* at a time, the earliest first; neighbours are updated from it.             *)
(***************************************************************************)
EXTENDS Travel, TLC
CONSTANTS MODE, NX, NZ, Vals, NCol, Slow
VARIABLES part, v, org, pos, got, tent, done, slow, src
vars == <<part, v, org, pos, got, tent, done, slow, src>>
Far == 1000
Init ==
  \/ /\ part = "section" /\ v \in [1..NX -> [1..NZ -> Vals]]
     /\ org \in {-700, 0, 250} /\ pos \in {250 * q : q \in 0..(4 * (NX - 1))} \X {250 * q : q \in 0..(4 * (NZ - 1))}
     /\ got = Interp(v, pos[1], IF MODE = "zero" THEN 1000 * (pos[2] \div 1000) + ((org + pos[2]) % 1000) ELSE pos[2])
     /\ tent = <<>> /\ done = {} /\ slow = <<>> /\ src = 0
  \/ /\ part = "march" /\ slow \in [1..NCol -> Slow] /\ src \in 1..NCol
     /\ tent = [i \in 1..NCol |-> IF i = src THEN 0 ELSE Far] /\ done = {}
     /\ v = <<>> /\ org = 0 /\ pos = <<0, 0>> /\ got = 0
Accept(i) ==
  /\ i \notin done /\ tent[i] < Far /\ \A j \in 1..NCol : j \in done \/ tent[j] >= tent[i]
  /\ done' = done \cup {i}
  /\ tent' = [j \in 1..NCol |-> IF j \notin done' /\ j \in {i - 1, i + 1} /\ tent[i] + slow[j] < tent[j]
                                THEN tent[i] + slow[j] ELSE tent[j]]
  /\ UNCHANGED <<part, v, org, pos, got, slow, src>>
Next == part = "march" /\ \E i \in 1..NCol : Accept(i)
Spec == Init /\ [][Next]_vars
(* between the corners of its cell; a corner itself on a corner; nearly the same nearby *)
Corners == LET i == pos[1] \div 1000 k == pos[2] \div 1000
           IN {Corner(v, i + a, k + b) : a \in {0, 1}, b \in {0, 1}}
Between == part = "section" => /\ \E c \in Corners : got >= 1000 * c
                               /\ \E c \in Corners : got <= 1000 * c
Exact == part = "section" /\ pos[1] % 1000 = 0 /\ pos[2] % 1000 = 0
           => got = 1000 * v[1 + pos[1] \div 1000][1 + pos[2] \div 1000]
Smooth == part = "section" => \A d \in {<<250, 0>>, <<0, 250>>, <<-250, 0>>, <<0, -250>>} :
            LET q == <<pos[1] + d[1], pos[2] + d[2]>>
            IN InSection(v, q[1], q[2]) => AbsT(got - Interp(v, q[1], q[2])) <= 251 * Steep(v, pos[1], pos[2])
(* accepted times are final and follow from the slownesses between *)
RECURSIVE Sum(_, _, _)
Sum(f, a, b) == IF a > b THEN 0 ELSE f[a] + Sum(f, a + 1, b)
Final == part = "march" => \A i \in done :
           tent[i] = IF i >= src THEN Sum(slow, src + 1, i) ELSE Sum(slow, i, src - 1)
Ordered == part = "march" => \A i \in done, j \in (1..NCol) \ done : tent[i] <= tent[j]
=============================================================================
