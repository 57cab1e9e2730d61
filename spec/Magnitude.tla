-------------------------------- MODULE Magnitude --------------------------------
(***************************************************************************)
(* Local magnitude of an event. An observation o has                         *)
(*   amp, noise   amplitudes in integer units, -1 where missing; the noise   *)
(*                is divided by gain (hundredths; 100 where no filter)        *)
(*   ed, zd       epicentral and vertical distance in 10 m                   *)
(*   st, tr, pk   station, matches the trace filter, station is picked       *)
(* Filters f: noise (hundredths, 0 off), trace, dist (10 m, 0 off), hyp,      *)
(* skip (set of stations), pick.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Measured(o) == o.amp # -1 /\ o.noise # -1
Sq(f, o) == IF f.hyp THEN (o.ed * o.ed) + (o.zd * o.zd) ELSE o.ed * o.ed
\* an amplitude that a magnitude can be had from
Usable(f, o) == /\ Measured(o) /\ o.amp > 0
                /\ o.amp * o.gain >= o.noise * 100
                /\ Sq(f, o) > 0
Passes(f, o) == /\ f.noise = 0 \/ o.amp * o.gain > o.noise * f.noise
                /\ ~f.trace \/ o.tr
                /\ o.st \notin f.skip
                /\ f.dist = 0 \/ Sq(f, o) <= f.dist * f.dist
                /\ ~f.pick \/ o.pk
Used(f, o) == Usable(f, o) /\ Passes(f, o)
=============================================================================
