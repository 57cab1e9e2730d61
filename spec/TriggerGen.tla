------------------------------ MODULE TriggerGen ------------------------------
(* Emits every complete behaviour of TriggerMC as the trace it read, for replay *)
EXTENDS TriggerMC, Json
Out == phase = "done" =>
         PrintT("VQ-GEN " \o ToJson([mw |-> p.mw, mei |-> p.mei, norm |-> p.norm,
                                     c |-> [j \in 1..Len0 |-> q[j].c],
                                     n |-> [j \in 1..Len0 |-> q[j].n]]))
===============================================================================
