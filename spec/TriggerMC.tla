------------------------------ MODULE TriggerMC ------------------------------
(* The trigger stage as a state machine over every small coalescence trace. *)
EXTENDS Trigger, FiniteSets, TLC
CONSTANTS Len0,      \* samples in the trace
          Vals,      \* coalescence values
          NVals,     \* normalised values (normalised mode)
          Ths,       \* static thresholds
          Windows    \* set of <<mw, mei>>
VARIABLES p, q, thr, pos, scan, groups, todo, phase
vars == <<p, q, thr, pos, scan, groups, todo, phase>>

WQ == {<<1, 2>>, <<1, 3>>}
WG == {<<1, 2>>, <<2, 4>>, <<0, 1>>}
WT == {<<1, 2>>, <<1, 3>>, <<2, 4>>, <<0, 1>>}
Mk(f, g) == [j \in 1..Len0 |-> [i |-> j, c |-> f[j], n |-> g[j], x |-> j, y |-> 0, z |-> 0]]

Init == /\ \E w \in Windows, nm \in {FALSE, TRUE} :
              p = [mw |-> w[1], mei |-> w[2], dt |-> 1, off |-> 0, norm |-> nm]
        /\ \E f \in [1..Len0 -> Vals] :
              \/ ~p.norm /\ q = Mk(f, f)
              \/ p.norm /\ \E g \in [1..Len0 -> NVals] : q = Mk(f, g)
        /\ \E h \in Ths : thr = [j \in 1..Len0 |-> h]
        /\ pos = 1 /\ scan = Scan0 /\ groups = <<>> /\ todo = <<>> /\ phase = "scan"

\* the scan reads the next sample of the trace
Sample == /\ phase = "scan" /\ pos <= Len0
          /\ scan' = ScanOne(p, scan, q[pos], thr[pos])
          /\ pos' = pos + 1
          /\ UNCHANGED <<p, q, thr, groups, todo, phase>>
\* end of data closes an open run
EndOfData == /\ phase = "scan" /\ pos > Len0
             /\ scan' = CloseRun(p, scan)
             /\ todo' = scan'.cands
             /\ phase' = "refine"
             /\ UNCHANGED <<p, q, thr, pos, groups>>
\* the refinement takes the next candidate
Refine == /\ phase = "refine" /\ todo # <<>>
          /\ groups' = RefineOne(p, groups, Head(todo))
          /\ todo' = Tail(todo)
          /\ UNCHANGED <<p, q, thr, pos, scan, phase>>
Emit == /\ phase = "refine" /\ todo = <<>>
        /\ phase' = "done"
        /\ UNCHANGED <<p, q, thr, pos, scan, groups, todo>>
Next == Sample \/ EndOfData \/ Refine \/ Emit
Spec == Init /\ [][Next]_vars

Evs == [j \in 1..Len(groups) |-> EventOf(groups[j])]

\* while scanning: exactly the above-threshold samples read so far are in a run
Above(j) == Val(p, q[j]) >= thr[j]
RunsSoFar ==
  phase = "scan" =>
    (scan.run # <<>> <=> (pos > 1 /\ Above(pos - 1)))
Done == phase = "done"
MachineIsFold == Done => Evs = EventsOf(p, Candidates(p, q, thr))
NothingLost == Done => Covered(p, q, thr, Evs)
NothingInvented == Done => FromSample(p, q, thr, Evs)
InOrder == Done => Ordered(Evs)
Apart == Done => Separated(p, Evs)
Reach == Done => Reaches(p, Evs)
NoCross == Done => WindowsApart(p, Evs)
Closure == Done => MergeIsClosure(p, scan.cands, groups)
\* the event takes the best of its group
BestOfGroup == Done => \A j \in 1..Len(groups) : \A k \in 1..Len(groups[j]) :
                 groups[j][k].trig <= Evs[j].trig
=============================================================================
