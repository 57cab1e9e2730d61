------------------------------- MODULE DetectMC -------------------------------
(***************************************************************************)
(* The writer as it is implemented: a buffer that is appended to, written    *)
(* out and emptied when it ends a day, and split when it runs past midnight. *)
(* Steps may fail (zero-fill), and the run may be killed between any two     *)
(* steps or inside one.                                                     *)
(***************************************************************************)
EXTENDS Detect, TLC
CONSTANTS Day, Days, MaxTs
VARIABLES start, end, ts, cont, i, buf, disk, dirty, st, rec
vars == <<start, end, ts, cont, i, buf, disk, dirty, st, rec>>

AllDays == 0..(Days + 1)
First(b) == CHOOSE x \in b : \A y \in b : x <= y
Last(b) == CHOOSE x \in b : \A y \in b : x >= y

Init == /\ start \in 0..(Day - 1) /\ end \in 1..(Days * Day) /\ start < end
        /\ ts \in 1..MaxTs /\ cont \in BOOLEAN
        /\ i = 0 /\ buf = {} /\ disk = [d \in AllDays |-> {}] /\ dirty = FALSE
        /\ st = "run" /\ rec = <<>>

Put(dk, b) == IF b = {} THEN dk ELSE [dk EXCEPT ![DayOf(First(b), Day)] = b]
AppendTo(b0) ==
  LET b == b0
      f == First(b)
      l == Last(b)
      fd == DayOf(f, Day)
      ld == DayOf(l, Day)
  IN IF l = (fd + 1) * Day - 1
     THEN [disk |-> Put(disk, b), buf |-> {}, dirty |-> FALSE]
     ELSE LET dk == IF fd # ld THEN Put(disk, b \cap Span(f, ld * Day)) ELSE disk
              rest == IF fd # ld THEN b \ Span(f, ld * Day) ELSE b
          IN IF cont THEN [disk |-> Put(dk, rest), buf |-> rest, dirty |-> FALSE]
             ELSE [disk |-> dk, buf |-> rest, dirty |-> TRUE]
Step(ok) ==
  /\ st = "run" /\ i < Steps(start, end, ts)
  /\ LET a == AppendTo(buf \cup Span(start + i * ts, start + (i + 1) * ts))
     IN disk' = a.disk /\ buf' = a.buf /\ dirty' = a.dirty
  /\ i' = i + 1 /\ rec' = Append(rec, ok)
  /\ UNCHANGED <<start, end, ts, cont, st>>
Finish == /\ st = "run" /\ i = Steps(start, end, ts)
          /\ disk' = IF dirty THEN Put(disk, buf) ELSE disk
          /\ dirty' = FALSE /\ st' = "done"
          /\ UNCHANGED <<start, end, ts, cont, i, buf, rec>>
Crash == /\ st = "run" /\ st' = "dead" /\ UNCHANGED <<start, end, ts, cont, i, buf, disk, dirty, rec>>
Next == Step(TRUE) \/ Step(FALSE) \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Step(TRUE)) /\ WF_vars(Finish)

C == Computed(start, ts, i)
DayLaw == \A d \in AllDays : disk[d] \subseteq DaySpan(d, Day)
SoundLaw == \A d \in AllDays : disk[d] \subseteq C
ClosedLaw == \A d \in AllDays : C # {} /\ (d + 1) * Day <= start + i * ts =>
               disk[d] = C \cap DaySpan(d, Day)
ContLaw == cont => \A d \in AllDays : disk[d] = C \cap DaySpan(d, Day)
FinalLaw == st = "done" =>
  /\ \A d \in AllDays : disk[d] = C \cap DaySpan(d, Day)
  /\ Span(start, end) \subseteq C
  /\ Cardinality(C) < end - start + ts
  /\ Len(rec) = i
\* the interval form used on recorded runs agrees with the set form
AsFiles == LET ds == {d \in AllDays : disk[d] # {}}
               F[n \in 0..Cardinality(AllDays)] ==
                 IF n = 0 THEN <<>>
                 ELSE IF (n - 1) \in ds
                      THEN Append(F[n - 1], [day |-> n - 1, first |-> First(disk[n - 1]),
                                              cnt |-> Cardinality(disk[n - 1])])
                      ELSE F[n - 1]
           IN F[Cardinality(AllDays)]
FormsAgree == /\ (\A d \in AllDays : disk[d] = C \cap DaySpan(d, Day))
                   = FilesExact(AsFiles, start, start + i * ts, Day)
              /\ FilesPartial(AsFiles, start, start + i * ts, Day)
Ends == <>(st # "run")
=============================================================================
