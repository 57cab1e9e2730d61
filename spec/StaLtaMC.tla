-------------------------------- MODULE StaLtaMC --------------------------------
(***************************************************************************)
(* The running sums of the compiled transforms: set up from the first        *)
(* windows, then one sample added and one taken away per step. Every output  *)
(* is the ratio of window means, whatever the signal.                        *)
(***************************************************************************)
EXTENDS StaLta, TLC
CONSTANTS MaxN, MaxV, MaxNl
VARIABLES x, ns, nl, fn, i, sta, lta, out, st
vars == <<x, ns, nl, fn, i, sta, lta, out, st>>
Init == /\ x \in UNION {[1..n -> 0..MaxV] : n \in 1..MaxN}
        /\ ns \in 1..MaxNl /\ nl \in 1..MaxNl /\ ns < nl
        /\ fn \in {"classic", "centred"}
        /\ i = 0 /\ sta = 0 /\ lta = 0 /\ out = [j \in 1..Len(x) |-> One] /\ st = "setup"
Fits == IF fn = "classic" THEN nl <= Len(x) ELSE nl + ns <= Len(x)
Put(S, L, j) == out' = [out EXCEPT ![j] = IF L > 0 THEN <<S * nl, L * ns>> ELSE One]
Setup == /\ st = "setup"
         /\ IF ~Fits THEN st' = "done" /\ UNCHANGED <<sta, lta, out, i>>
            ELSE /\ st' = "run" /\ i' = nl
                 /\ lta' = Sum(x, 1, nl)
                 /\ sta' = IF fn = "classic" THEN Sum(x, nl - ns + 1, nl) ELSE Sum(x, nl + 1, nl + ns)
                 /\ Put(sta', lta', nl)
         /\ UNCHANGED <<x, ns, nl, fn>>
Last == IF fn = "classic" THEN Len(x) ELSE Len(x) - ns
Slide == /\ st = "run" /\ i < Last
         /\ i' = i + 1
         /\ lta' = lta + x[i + 1] - x[i + 1 - nl]
         /\ sta' = IF fn = "classic" THEN sta + x[i + 1] - x[i + 1 - ns]
                   ELSE sta + x[i + 1 + ns] - x[i + 1]
         /\ Put(sta', lta', i + 1)
         /\ UNCHANGED <<x, ns, nl, fn, st>>
Finish == st = "run" /\ i = Last /\ st' = "done" /\ UNCHANGED <<x, ns, nl, fn, i, sta, lta, out>>
Next == Setup \/ Slide \/ Finish
Same(p, q) == p[1] * q[2] = q[1] * p[2]
Right == st = "done" => \A j \in 1..Len(x) : Same(out[j], Value(fn, x, ns, nl, j))
Defined == \A j \in 1..Len(x) : out[j][2] > 0
Sums == st = "run" => lta = Sum(x, i - nl + 1, i) /\ sta >= 0 /\ lta >= 0
=============================================================================
