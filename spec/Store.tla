--------------------------------- MODULE Store ---------------------------------
(***************************************************************************)
(* Stored coalescence. A real number is <<whole, fraction>> with the         *)
(* fraction counted in units of 1/U; the store keeps it to a precision P     *)
(* (P units), clipping at Cap.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Cap == 21474
Clip(v) == IF v[1] >= Cap THEN <<Cap, 0>> ELSE v

\* got is want rounded to the store's precision: at most half of it away
Near(got, want, u, p) ==
  /\ got[1] - want[1] \in {-1, 0, 1}
  /\ LET d == (got[1] - want[1]) * u + got[2] - want[2]
     IN -(p \div 2) - 2 <= d /\ d <= (p \div 2) + 2

\* windowed reading: the samples stored (a set) and what a read returns
Want(stored, a, b) == {t \in a..b : t \in stored}
\* everything stored within the window, in one stretch without further samples; what lies
\* in a hole is reported as nothing (zero), as detect does where there are no data
First(S) == CHOOSE t \in S : \A u \in S : t <= u
Last(S) == CHOOSE t \in S : \A u \in S : t >= u
ReadOK(stored, a, b, got) == LET want == Want(stored, a, b)
                             IN want # {} /\ got = First(want)..Last(want)
=============================================================================
