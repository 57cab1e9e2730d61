--------------------------------- MODULE PickMC ---------------------------------
(***************************************************************************)
(* The picker goes through the phases of a station, in any order of the      *)
(* phases: clips the windows pairwise in order of arrival, then picks.       *)
(***************************************************************************)
EXTENDS Pick, TLC
CONSTANTS N, MaxHalf, NPh, MaxV
VARIABLES arr, half, on, win, todo, k, rows, st
vars == <<arr, half, on, win, todo, k, rows, st>>
Perms == {f \in [1..NPh -> 1..NPh] : \A i, j \in 1..NPh : i # j => f[i] # f[j]}
Init == /\ arr \in [1..NPh -> 0..N]
        /\ half \in [1..NPh -> 0..MaxHalf]
        /\ on \in [1..NPh -> {f \in [1..N -> 0..MaxV] : Cardinality({x \in 1..N : f[x] > 0}) <= 3}]
        \* phases are visited in order of arrival, whatever order they are listed in
        /\ todo \in {f \in Perms : \A i \in 1..(NPh - 1) : arr[f[i]] <= arr[f[i + 1]]}
        /\ win = [i \in 1..NPh |-> <<arr[i] - half[i], arr[i] + half[i]>>]
        /\ k = 0 /\ rows = {} /\ st = "clip"
Clip == /\ st = "clip"
        /\ IF k = 0 THEN /\ win' = [win EXCEPT ![todo[1]][1] = PMax(0, @)]
                         /\ k' = 1 /\ st' = st
           ELSE IF k < NPh
           THEN LET a == todo[k]
                    b == todo[k + 1]
                    mid == (arr[a] + arr[b]) \div 2
                IN /\ win' = [win EXCEPT ![a][2] = PMin(mid, @), ![b][1] = PMax(mid, @)]
                   /\ k' = k + 1 /\ st' = st
           ELSE /\ win' = [win EXCEPT ![todo[NPh]][2] = PMin(N, @)]
                /\ k' = 1 /\ st' = "pick"
        /\ UNCHANGED <<arr, half, on, todo, rows>>
DoPick == /\ st = "pick"
          /\ LET p == IF Pickable(on[k], win[k], 0) THEN Peak(on[k], win[k]) ELSE -1
             IN rows' = rows \cup {<<k, p>>}
          /\ k' = k + 1
          /\ st' = IF k = NPh THEN "done" ELSE st
          /\ UNCHANGED <<arr, half, on, win, todo>>
Next == Clip \/ DoPick
OneRowEach == st = "done" => /\ Cardinality(rows) = NPh
                             /\ {r[1] : r \in rows} = 1..NPh
Disjoint == st # "clip" => \A i, j \in 1..NPh : i # j =>
              \A s \in -1..N : ~(InWin(win[i], s) /\ InWin(win[j], s))
InData == st # "clip" => \A i \in 1..NPh : \A s \in -MaxHalf..(N + MaxHalf) : InWin(win[i], s) => s \in 0..(N - 1)
AsStated == st # "clip" => \A i \in 1..NPh :
              \/ win[i] = Windows(arr, half, N)[i]
              \/ \E j \in 1..NPh : j # i /\ arr[j] = arr[i]
PickInWindow == \A r \in rows : r[2] = -1 \/ InWin(win[r[1]], r[2])
=============================================================================
