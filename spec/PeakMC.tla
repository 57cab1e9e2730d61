-------------------------------- MODULE PeakMC --------------------------------
(***************************************************************************)
(* The peak finder: threads take samples; each walks over the nodes keeping *)
(* the best value, its node and the sum. Every map, every interleaving.     *)
(***************************************************************************)
EXTENDS Migration, FiniteSets, TLC
CONSTANTS NNodes, NSamples, Vals
VARIABLES m, pc, best, idx, sum
vars == <<m, pc, best, idx, sum>>
S == 1..NSamples
Init == /\ m \in [S -> [1..NNodes -> Vals]]
        /\ pc = [t \in S |-> 1]
        /\ best = [t \in S |-> 0] /\ idx = [t \in S |-> 0] /\ sum = [t \in S |-> 0]
\* one thread per sample in flight: the finest interleaving
First(t) == /\ pc[t] = 1
            /\ best' = [best EXCEPT ![t] = m[t][1]]
            /\ idx' = [idx EXCEPT ![t] = 1]
            /\ sum' = [sum EXCEPT ![t] = m[t][1]]
            /\ pc' = [pc EXCEPT ![t] = 2]
            /\ UNCHANGED m
Node(t) == /\ pc[t] > 1 /\ pc[t] <= NNodes
           /\ LET x == m[t][pc[t]]
              IN /\ sum' = [sum EXCEPT ![t] = @ + x]
                 /\ IF x > best[t] THEN /\ best' = [best EXCEPT ![t] = x]
                                        /\ idx' = [idx EXCEPT ![t] = pc[t]]
                                   ELSE UNCHANGED <<best, idx>>
           /\ pc' = [pc EXCEPT ![t] = @ + 1]
           /\ UNCHANGED m
Next == \E t \in S : First(t) \/ Node(t)
Spec == Init /\ [][Next]_vars
Done(t) == pc[t] > NNodes
Right == \A t \in S : Done(t) =>
   /\ best[t] = MaxOver(m[t]) /\ idx[t] = Lowest(m[t]) /\ sum[t] = SumOver(m[t], NNodes)
SoFar == \A t \in S : pc[t] > 1 => \A v \in 1..(pc[t] - 1) : m[t][v] <= best[t]
=============================================================================
