---------------------------- MODULE TriggerFilesMC ----------------------------
(***************************************************************************)
(* Histories of trigger calls: each call processes a set of days with its   *)
(* own threshold and selection and replaces the files of exactly those days *)
(* in exactly its own sub-run. Whatever the history, a file is what its     *)
(* last call alone would have written (no residue of earlier calls).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Days, Subs, Thresholds, Calls
VARIABLES coa, file, last, n
vars == <<coa, file, last, n>>
\* the day's candidate events are abstracted to one peak value per day
Init == /\ coa \in [Days -> 0..2]
        /\ file = [k \in Subs \X Days |-> "none"]
        /\ last = [k \in Subs \X Days |-> 0]
        /\ n = 0
Rows(d, th) == IF coa[d] >= th THEN "event" ELSE "empty"
Call(s, D, th) ==
  /\ n < Calls
  /\ n' = n + 1
  /\ file' = [k \in Subs \X Days |-> IF k[1] = s /\ k[2] \in D
               THEN Rows(k[2], th) ELSE file[k]]
  /\ last' = [k \in Subs \X Days |-> IF k[1] = s /\ k[2] \in D THEN th ELSE last[k]]
  /\ UNCHANGED coa
Next == \E s \in Subs, D \in SUBSET Days, th \in Thresholds : Call(s, D, th)
Spec == Init /\ [][Next]_vars
NoResidue == \A k \in Subs \X Days :
   file[k] = IF last[k] = 0 THEN "none" ELSE Rows(k[2], last[k])
=============================================================================
