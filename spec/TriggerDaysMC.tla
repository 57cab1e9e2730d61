---------------------------- MODULE TriggerDaysMC ----------------------------
(***************************************************************************)
(* A trigger call over several UTC days. Each day is a batch: it reads the  *)
(* day plus a pad on either side, finds the events in what it read, keeps   *)
(* those of its own day and writes them to the day's file. Checked over     *)
(* every small trace: if the pad is long enough for the activity (PadOK),   *)
(* the files together are exactly the events of the undivided trace, each   *)
(* in the file of its day, in whatever order the days are triggered.        *)
(***************************************************************************)
EXTENDS Trigger, FiniteSets, TLC
CONSTANTS Day, NDays, Vals, Windows, Pads
VARIABLES p, pad, q, file, todo
vars == <<p, pad, q, file, todo>>
Len0 == Day * NDays
W1 == {<<1, 2>>}
Thr1 == [i \in 0..(Len0 - 1) |-> 1]
Init == /\ \E w \in Windows : p = [mw |-> w[1], mei |-> w[2], dt |-> 1, off |-> 0, norm |-> FALSE]
        /\ pad \in Pads
        /\ \E f \in [0..(Len0 - 1) -> Vals] :
             q = [j \in 1..Len0 |-> [i |-> j - 1, c |-> f[j - 1], n |-> 0,
                                     x |-> j, y |-> 0, z |-> 0]]
        /\ file = [d \in 0..(NDays - 1) |-> <<>>]
        /\ todo = 0..(NDays - 1)
Read(d) == SelectSeq(q, LAMBDA sm : sm.i >= d * Day - pad /\ sm.i <= (d + 1) * Day + pad)
Batch(d) == /\ d \in todo
            /\ todo' = todo \ {d}
            /\ file' = [file EXCEPT ![d] = SelectSeq(
                 EventsOf(p, Candidates(p, Read(d), Thr1)),
                 LAMBDA e : e.t >= d * Day /\ e.t < (d + 1) * Day)]
            /\ UNCHANGED <<p, pad, q>>
Next == \E d \in 0..(NDays - 1) : Batch(d)
Spec == Init /\ [][Next]_vars

Whole == EventsOf(p, Candidates(p, q, Thr1))
\* the activity any one event depends on fits in the pad
PadOK == PadSuffices(p, pad, Whole)
OnePerDay == todo = {} /\ PadOK =>
   \A d \in 0..(NDays - 1) :
      file[d] = SelectSeq(Whole, LAMBDA e : e.t >= d * Day /\ e.t < (d + 1) * Day)
DayRight == \A d \in 0..(NDays - 1) : \A j \in 1..Len(file[d]) :
               file[d][j].t \div Day = d
Sep == \A d \in 0..(NDays - 1) : Separated(p, file[d]) /\ Ordered(file[d])
=============================================================================
