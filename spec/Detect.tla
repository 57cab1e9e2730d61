-------------------------------- MODULE Detect --------------------------------
(***************************************************************************)
(* The detect stage. Samples are counted from a UTC midnight, day d holds    *)
(* the samples d*Day .. d*Day + Day - 1. A run starts at sample `start`,     *)
(* advances `ts` samples at a time, and after the steps 0..i-1 has computed  *)
(* the samples start .. start + i*ts - 1.                                   *)
(*                                                                         *)
(* What is on disk is abstracted as disk[d]: the set of samples in the file  *)
(* of day d. The laws:                                                      *)
(*   DayLaw      a file holds samples of its own day only                   *)
(*   SoundLaw    nothing but computed samples is on disk                    *)
(*   ClosedLaw   a day that has been passed is complete on disk             *)
(*   ContLaw     with continuous writing, everything computed is on disk    *)
(*   FinalLaw    once the run is over, everything computed is on disk       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

DayOf(t, day) == t \div day
Span(a, b) == a..(b - 1)
DaySpan(d, day) == Span(d * day, (d + 1) * day)
CeilDiv(a, b) == (a + b - 1) \div b

\* how many steps a run over [start, end) takes
Steps(start, end, ts) == CeilDiv(end - start, ts)
Computed(start, ts, i) == Span(start, start + i * ts)

-----------------------------------------------------------------------------
(* The laws on intervals: f is a sequence of [day, first, cnt], one a file   *)
FileDayOK(f, day) == f.cnt > 0 /\ f.first >= f.day * day
                     /\ f.first + f.cnt <= (f.day + 1) * day
\* exactly what [a, b) leaves in day d
PartFirst(a, d, day) == IF a > d * day THEN a ELSE d * day
PartEnd(b, d, day) == IF b < (d + 1) * day THEN b ELSE (d + 1) * day
FileExact(f, a, b, day) ==
  /\ f.first = PartFirst(a, f.day, day)
  /\ f.first + f.cnt = PartEnd(b, f.day, day)
DaysOf(a, b, day) == IF b <= a THEN {} ELSE DayOf(a, day)..DayOf(b - 1, day)
FilesExact(fs, a, b, day) ==
  /\ {fs[i].day : i \in DOMAIN fs} = DaysOf(a, b, day)
  /\ Len(fs) = Cardinality(DaysOf(a, b, day))
  /\ \A i \in DOMAIN fs : FileExact(fs[i], a, b, day)
\* mid-run: every file is exactly what some prefix of the run leaves in its
\* day, and a day that has been passed is complete
FilesPartial(fs, a, b, day) ==
  /\ \A i, j \in DOMAIN fs : i # j => fs[i].day # fs[j].day
  /\ \A i \in DOMAIN fs :
       /\ fs[i].cnt > 0
       /\ fs[i].first = PartFirst(a, fs[i].day, day)
       /\ fs[i].first + fs[i].cnt <= PartEnd(b, fs[i].day, day)
  /\ \A d \in DaysOf(a, b, day) :
       (d + 1) * day <= b => \E i \in DOMAIN fs : fs[i].day = d /\ FileExact(fs[i], a, b, day)
=============================================================================
