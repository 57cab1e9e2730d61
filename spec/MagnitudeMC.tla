------------------------------- MODULE MagnitudeMC -------------------------------
(***************************************************************************)
(* A table of observations goes through calculations with changing filters:  *)
(* every calculation works on a copy, corrects the noise for the gain, drops  *)
(* what was not measured and marks filter by filter. What is used is the      *)
(* same whatever was calculated from the table before.                       *)
(***************************************************************************)
EXTENDS Magnitude, TLC
CONSTANTS NObs, NCalc
VARIABLES tab, work, f, marks, st, n, hist
vars == <<tab, work, f, marks, st, n, hist>>
Obs == [amp : {-1, 0, 2, 3}, noise : {-1, 1, 4}, gain : {50, 100}, ed : {0, 3}, zd : {4},
        st : {"A"}, tr : BOOLEAN, pk : {TRUE}]
        \cup [amp : {3}, noise : {1}, gain : {100}, ed : {3}, zd : {0, 4}, st : {"B"},
              tr : {TRUE}, pk : BOOLEAN]
Filters == [noise : {0, 100, 300}, trace : BOOLEAN, dist : {0, 4}, hyp : BOOLEAN,
            skip : {{}, {"B"}}, pick : BOOLEAN]
Init == /\ tab \in [1..NObs -> Obs]
        /\ work = <<>> /\ f \in Filters /\ marks = {} /\ st = "idle" /\ n = 0 /\ hist = {}
Begin == /\ st = "idle" /\ n < NCalc
         /\ work' = SelectSeq(tab, Measured)
         /\ marks' = 1..Len(work')
         /\ st' = "noise" /\ n' = n + 1
         /\ UNCHANGED <<tab, f, hist>>
Mark(from, to, P(_)) == /\ st = from
                        /\ marks' = {i \in marks : P(work[i])}
                        /\ st' = to /\ UNCHANGED <<tab, work, f, n, hist>>
Noise == Mark("noise", "trace", LAMBDA o : f.noise = 0 \/ o.amp * o.gain > o.noise * f.noise)
Trace == Mark("trace", "station", LAMBDA o : ~f.trace \/ o.tr)
Stn == Mark("station", "dist", LAMBDA o : o.st \notin f.skip)
Dist == Mark("dist", "pick", LAMBDA o : f.dist = 0 \/ Sq(f, o) <= f.dist * f.dist)
Pick == Mark("pick", "mag", LAMBDA o : ~f.pick \/ o.pk)
\* an observation without a magnitude cannot be used
Mag == Mark("mag", "done", LAMBDA o : Usable(f, o))
Finish == /\ st = "done"
          /\ hist' = hist \cup {<<f, {work[i] : i \in marks}>>}
          /\ st' = "idle"
          /\ f' \in {f, [f EXCEPT !.noise = IF @ = 0 THEN 100 ELSE 0]}
          /\ UNCHANGED <<tab, work, marks, n>>
Next == Begin \/ Noise \/ Trace \/ Stn \/ Dist \/ Pick \/ Mag \/ Finish
RightSet == \A h \in hist : h[2] = {o \in {tab[i] : i \in 1..NObs} : Used(h[1], o)}
Monotone == \A i \in marks : Measured(work[i])
=============================================================================
