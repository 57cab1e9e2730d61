-------------------------------- MODULE Locate --------------------------------
(***************************************************************************)
(* The locate stage. Times are integers (samples or milliseconds) counted   *)
(* from a UTC midnight, `day` of them to a day. An event is a record with    *)
(* the fields t (trigger time) and uid.                                      *)
(*                                                                         *)
(*   InSpan    which events a locate call over [a, b] considers             *)
(*   Usable    an event whose data can be used                              *)
(*   Eligible  ... and whose peak is strictly inside the marginal window    *)
(* An event is located on its own: what the stage leaves behind is the       *)
(* union over the eligible events of what each of them leaves.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EvDay(t, day) == t \div day
\* the end of the span belongs to it unless it is midnight
InSpan(t, a, b, day) == a <= t /\ (IF b % day = 0 THEN t < b ELSE t <= b)
\* the day files that can hold an event of the span, by the day of their name
SpanDays(a, b, day) == EvDay(a, day)..EvDay(b, day)

\* the samples locate scans for an event triggered at t, and the marginal window
Scanned(t, mw) == (t - 2 * mw)..(t + 2 * mw)
Window(o, mw) == (o - mw)..(o + mw)
Inside(t, o, mw) == o - mw < t /\ t < o + mw

\* the samples at which a trace (function over a set of samples) is largest
PeakSet(f, S) == {x \in S : \A y \in S : f[y] <= f[x]}
=============================================================================
