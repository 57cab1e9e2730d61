------------------------------- MODULE LocateMC -------------------------------
(***************************************************************************)
(* The stage as a process: it opens the day files of the span one at a time, *)
(* keeps the events of the span, and then works through them one by one;     *)
(* each may be unusable (data missing, gappy, none available) or have its    *)
(* peak outside the marginal window. Files may be missing.                  *)
(*                                                                         *)
(* Checked: the selection does not depend on how events are spread over      *)
(* files, every selected event is considered once, what is left behind is    *)
(* exactly the eligible events' outputs - in whatever order they come - and  *)
(* a scanned window always holds the marginal window of an eligible event.   *)
(***************************************************************************)
EXTENDS Locate, TLC
CONSTANTS Day, Days, MW, NEv
VARIABLES ev, files, a, b, at, sel, todo, out, seen, st
vars == <<ev, files, a, b, at, sel, todo, out, seen, st>>

Fates == {"ok", "gap"}
Times == 0..(Days * Day - 1)
Offs == (-2 * MW)..(2 * MW)
Init ==
  /\ ev \in [1..NEv -> [t : Times, fate : Fates, off : Offs]]
  /\ \A i \in 1..(NEv - 1) : ev[i].t < ev[i + 1].t
  /\ files \in SUBSET (0..(Days - 1))
  /\ a \in 0..(Day + 1) /\ b \in 0..(Days * Day) /\ a <= b
  /\ at = EvDay(a, Day) /\ sel = {} /\ todo = {} /\ out = {} /\ seen = {} /\ st = "read"
InFile(d) == {i \in 1..NEv : EvDay(ev[i].t, Day) = d}
Read == /\ st = "read" /\ at * Day <= b
        /\ sel' = IF at \in files THEN sel \cup {i \in InFile(at) : InSpan(ev[i].t, a, b, Day)} ELSE sel
        /\ at' = at + 1
        /\ UNCHANGED <<ev, files, a, b, todo, out, seen, st>>
Opened == files \cap (EvDay(a, Day)..EvDay(b, Day))
Ready == /\ st = "read" /\ at * Day > b
         /\ IF Opened = {} THEN st' = "nofiles" /\ UNCHANGED todo ELSE st' = "work" /\ todo' = sel
         /\ UNCHANGED <<ev, files, a, b, at, sel, out, seen>>
Good(i) == ev[i].fate = "ok" /\ Inside(ev[i].t, ev[i].t + ev[i].off, MW)
Work(i) == /\ st = "work" /\ i \in todo
           /\ todo' = todo \ {i} /\ seen' = seen \cup {i}
           /\ out' = IF Good(i) THEN out \cup {<<i, ev[i].t + ev[i].off>>} ELSE out
           /\ UNCHANGED <<ev, files, a, b, at, sel, st>>
Finish == /\ st = "work" /\ todo = {} /\ st' = "done"
          /\ UNCHANGED <<ev, files, a, b, at, sel, todo, out, seen>>
Next == Read \/ Ready \/ (\E i \in 1..NEv : Work(i)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Wanted == {i \in 1..NEv : InSpan(ev[i].t, a, b, Day) /\ EvDay(ev[i].t, Day) \in files}
SelLaw == st \in {"work", "done"} => sel = Wanted
OnceLaw == st = "work" => seen \cap todo = {} /\ seen \cup todo = Wanted
OutLaw == st = "done" => out = {<<i, ev[i].t + ev[i].off>> : i \in {j \in Wanted : Good(j)}}
NoFilesLaw == st = "nofiles" => \A d \in SpanDays(a, b, Day) : d \notin files
MidnightLaw == \A t \in Times : InSpan(t, a, b, Day) /\ b % Day = 0 => EvDay(t, Day) < EvDay(b, Day)
WindowLaw == \A i \in 1..NEv : Good(i) => Window(ev[i].t + ev[i].off, MW) \subseteq Scanned(ev[i].t, MW)
\* an event's own peak never makes another one eligible
Done == <>(st \in {"done", "nofiles"})
=============================================================================
