----------------------------- MODULE FiguresMC -----------------------------
(***************************************************************************)
(* A stage that finds events one after another, writes each and draws it, on   *)
(* one canvas that is cleared after each figure; and the pictures of windows,     *)
(* slices and staircases. MODE "stale" leaves the canvas as it was; "alter" has     *)
(* the drawing trim what it draws; "first" makes slices at the first node.           *)
(***************************************************************************)
EXTENDS Figures, TLC
CONSTANTS MODE, T, MW, MEI, NX, Vals, NE
VARIABLES part, times, at, files, figs, canvas, cur, m, q, steps
vars == <<part, times, at, files, figs, canvas, cur, m, q, steps>>
Ev(c) == [c |-> c, a |-> c - MEI, b |-> c + MEI]
Nodes == (1..NX) \X (1..NX) \X (1..NX)
Top(f) == CHOOSE n \in DOMAIN f : \A o \in DOMAIN f : f[o] <= f[n]
Init ==
  /\ at = 0 /\ files = <<>> /\ figs = <<>> /\ canvas = {} /\ cur = "find"
  /\ \/ /\ part = "stage"
        /\ times \in UNION {[1..k -> 0..T] : k \in 0..NE}
        /\ \A i, j \in DOMAIN times : i < j => times[j] - times[i] >= 2 * MEI
        /\ m = <<>> /\ q = <<>> /\ steps = <<>>
     \/ /\ part = "map" /\ times = <<>> /\ steps = <<>>
        /\ m \in [Nodes -> Vals]
        /\ q = IF MODE = "first" THEN <<1, 1, 1>> ELSE Top(m)
     \/ /\ part = "steps" /\ times = <<>> /\ m = <<>> /\ q = <<>>
        /\ steps \in [1..3 -> Vals]
Find == /\ part = "stage" /\ cur = "find" /\ at < Len(times)
        /\ at' = at + 1 /\ cur' = "write"
        /\ UNCHANGED <<part, times, files, figs, canvas, m, q, steps>>
Write == /\ cur = "write" /\ files' = Append(files, Ev(times[at])) /\ cur' = "draw"
         /\ UNCHANGED <<part, times, at, figs, canvas, m, q, steps>>
Draw == /\ cur = "draw"
        /\ LET marks == (IF MODE = "stale" THEN canvas ELSE {}) \cup Windows(Ev(times[at]), MW)
           IN figs' = Append(figs, [of |-> times[at], marks |-> marks]) /\ canvas' = marks
        /\ files' = IF MODE = "alter" THEN [files EXCEPT ![at] = [@ EXCEPT !.a = times[at] - MW]] ELSE files
        /\ cur' = "find"
        /\ UNCHANGED <<part, times, at, m, q, steps>>
Next == Find \/ Write \/ Draw
Spec == Init /\ [][Next]_vars
Done == part = "stage" /\ cur = "find" /\ at = Len(times)
EachDrawn == Done => /\ Len(figs) = Len(times)
                     /\ \A i \in DOMAIN times : \E f \in RangeF(figs) : f.of = times[i]
Unchanged == part = "stage" => \A i \in DOMAIN files : files[i] = Ev(times[i])
Faithful == \A f \in RangeF(figs) : /\ ShowsAll(f.marks, Windows(Ev(f.of), MW))
                                    /\ f.marks = Windows(Ev(f.of), MW)
(* an event's windows cover it without overlap, and no other event's *)
Tiling == part = "stage" => \A i \in DOMAIN times : \A t \in (times[i] - MEI)..(times[i] + MEI - 1) :
             Cardinality({<<j, w>> \in UNION {{<<j, w>> : w \in Windows(Ev(times[j]), MW)} : j \in DOMAIN times} :
                            w[1] <= t /\ t < w[2]}) = 1
(* every slice holds the highest node; where two slices cross they agree *)
SlicesMeet == part = "map" =>
  /\ \A d \in Views : \E s \in Slice(m, q, d) : s[3] = m[Top(m)] /\ <<s[1], s[2]>> = Seen(q, d)
  /\ \A d \in Views : Cardinality(Slice(m, q, d)) = NX * NX
  /\ \A a \in Slice(m, q, <<1, 2>>), b \in Slice(m, q, <<1, 3>>) :
       (a[1] = b[1] /\ a[2] = q[2] /\ b[2] = q[3]) => a[3] = b[3]
(* a staircase drawn with its last value repeated at the end reads as it was set *)
StepsRead == part = "steps" =>
  LET st == [t |-> <<0, 10, 20, 30>>, y |-> Append(steps, steps[3])]
  IN \A t \in 0..30 : StepAt(st, t) = steps[IF t >= 20 THEN 3 ELSE t \div 10 + 1]
=============================================================================
