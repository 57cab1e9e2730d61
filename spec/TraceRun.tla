------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* The validator: every case is one initial state, l is the position in its *)
(* trace, s the abstract state the specification is in. Verdicts are total: *)
(* each case prints exactly one of                                          *)
(*    <<"VQ-OK", case>>    <<"VQ-BAD", case, position, clause>>             *)
(* Supplied by the instantiating module:                                    *)
(*    Start(case)         the abstract state before the first event         *)
(*    Reject(case, s, e)  "" if event e is an instance of an enabled action *)
(*                        of the specification, else the name of the first  *)
(*                        conjunct of its guard that is false               *)
(*    Step(case, s, e)    the abstract state after that action              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, CaseOf(_), Start(_), Reject(_, _, _), Step(_, _, _)
VARIABLES c, l, s, v

Init == /\ c \in 1..N
        /\ l = 1
        /\ s = Start(CaseOf(c))
        /\ v = "run"

Next == /\ v = "run"
        /\ c' = c
        /\ IF l > Len(CaseOf(c).ev)
           THEN /\ v' = "ok" /\ UNCHANGED <<l, s>>
                /\ PrintT(<<"VQ-OK", c>>)
           ELSE LET e == CaseOf(c).ev[l]
                    r == Reject(CaseOf(c), s, e)
                IN IF r = ""
                   THEN /\ l' = l + 1 /\ s' = Step(CaseOf(c), s, e) /\ v' = v
                   ELSE /\ v' = "bad" /\ UNCHANGED <<l, s>>
                        /\ PrintT(<<"VQ-BAD", c, l, r>>)
=============================================================================
