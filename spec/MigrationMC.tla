----------------------------- MODULE MigrationMC -----------------------------
(***************************************************************************)
(* The migration kernel: threads take disjoint sets of nodes (any           *)
(* assignment) and add, one onset sample at a time, into the node's row of  *)
(* the shared map, then take the mean. Every interleaving of the additions  *)
(* leaves the stack of Migration!Stack in every cell.                       *)
(***************************************************************************)
EXTENDS Migration, FiniteSets, TLC
CONSTANTS Threads, NNodes, NOnsets, NSamples, MaxTT, OnVals
VARIABLES on, tt, own, pc, map, fin
vars == <<on, tt, own, pc, map, fin>>
OV == {1, -99}
OV3 == {0, 1, -99}
Nodes == 1..NNodes
Len0 == NSamples + MaxTT + 1          \* one sample before the window
Init == /\ on \in [1..NOnsets -> [1..Len0 -> OnVals]]
        /\ tt \in [Nodes -> [1..NOnsets -> 0..MaxTT]]
        /\ own \in {f \in [Nodes -> Threads] : f[1] = 1}
        /\ pc = [v \in Nodes |-> <<1, 1>>]      \* next onset, next sample of node v
        /\ map = [v \in Nodes |-> [t \in 1..NSamples |-> <<0, 0>>]]
        /\ fin = {}
\* a thread works on its nodes one after the other
Current(th) == LET mine == {v \in Nodes : own[v] = th /\ v \notin fin}
               IN IF mine = {} THEN 0 ELSE CHOOSE v \in mine : \A u \in mine : v <= u
AddOne(th) ==
  LET v == Current(th) IN
  /\ v # 0
  /\ pc[v][1] <= NOnsets
  /\ LET o == pc[v][1] t == pc[v][2] x == At(on, tt, 1, v, o, t)
     IN /\ map' = [map EXCEPT ![v][t] = IF x = Floor THEN <<@[1], @[2] + 1>>
                                                     ELSE <<@[1] + x, @[2]>>]
        /\ pc' = [pc EXCEPT ![v] = IF t < NSamples THEN <<o, t + 1>> ELSE <<o + 1, 1>>]
  /\ UNCHANGED <<on, tt, own, fin>>
Mean(th) ==
  LET v == Current(th) IN
  /\ v # 0
  /\ pc[v][1] > NOnsets
  /\ fin' = fin \cup {v}
  /\ UNCHANGED <<on, tt, own, pc, map>>
Next == \E th \in Threads : AddOne(th) \/ Mean(th)
Spec == Init /\ [][Next]_vars
Right == \A v \in fin : \A t \in 1..NSamples : map[v][t] = Stack(on, tt, 1, v, t)
InBounds == \A v \in Nodes, o \in 1..NOnsets, t \in 1..NSamples :
              1 + tt[v][o] + t <= Len0
NoneForgotten == (\A th \in Threads : Current(th) = 0) => fin = Nodes
=============================================================================
