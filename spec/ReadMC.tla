-------------------------------- MODULE ReadMC --------------------------------
(***************************************************************************)
(* Windowed reading from day files, every pattern of stored samples, every   *)
(* window: the reader visits each day of the padded window, joins what it    *)
(* finds and fills the holes between. A stored sample is 1, a filled one 0.  *)
(***************************************************************************)
EXTENDS Store, FiniteSets
CONSTANTS Day, Days
VARIABLES stored, a, b, d, acc, st
All == 0..(Day * Days - 1)
Init == stored \in SUBSET All /\ a \in All /\ b \in All /\ a <= b
        /\ d = a \div Day /\ acc = {} /\ st = "read"
Visit == st = "read" /\ d * Day <= b
         /\ acc' = acc \cup {t \in stored : t \div Day = d /\ t \in a..b}
         /\ d' = d + 1 /\ UNCHANGED <<stored, a, b, st>>
Finish == st = "read" /\ d * Day > b /\ st' = "done" /\ UNCHANGED <<stored, a, b, d, acc>>
Next == Visit \/ Finish
Got == IF acc = {} THEN {} ELSE First(acc)..Last(acc)
Value(t) == IF t \in acc THEN 1 ELSE 0
Whole == st = "done" => /\ Got = {} <=> Want(stored, a, b) = {}
                        /\ Got # {} => ReadOK(stored, a, b, Got)
                        /\ \A t \in Got : (Value(t) = 1) = (t \in stored)
=============================================================================
