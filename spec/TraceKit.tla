------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Common part of the trace specifications: a batch of recorded cases, each *)
(* a record with a sequence `ev` of events, is validated in one TLC run.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.VQ_TRACE)

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Within(a, b, tol) == Abs(a - b) <= tol
RangeOf(f) == {f[i] : i \in DOMAIN f}
Has(r, k) == k \in DOMAIN r
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
NoDup(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
=============================================================================
