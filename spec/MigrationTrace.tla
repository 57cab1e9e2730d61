---------------------------- MODULE MigrationTrace ----------------------------
(***************************************************************************)
(* Recorded calls of core.migrate and core.find_max_coa.                    *)
(*  "migrate": out[v][t] = round(1e4 * n * ln(map4d[v, t])), ok = all finite *)
(*  "same":    digest of a map under another thread count or call           *)
(*  "peak":    a map of small integers (dense rows per sample, or a base     *)
(*             value with planted ones) and what the finder returned         *)
(***************************************************************************)
EXTENDS Migration, TraceKit
VARIABLES c, l, s, v
LnFloor == -46052       \* 1e4 ln 0.01

Near4(n, got, want) == Abs(got - (10000 * want[1] + LnFloor * want[2])) <= 2 + 2 * n

MigrateReject(k, e) ==
  LET on == k.on tt == k.tt n == Len(k.on)
      bad(x) == ~Near4(n, e.out[x[1]][x[2]], Stack(on, tt, k.first, x[1], x[2]))
  IN CASE ~e.finite -> "not-finite"
       [] Len(e.out) # Len(tt) -> "node-count"
       [] \E j \in 1..Len(e.out) : Len(e.out[j]) # k.nsamp -> "sample-count"
       [] \E j \in 1..Len(e.out) : \E t \in 1..k.nsamp : bad(<<j, t>>) -> "stack-value"
       [] OTHER -> ""

\* sparse sample: everything is base except the planted <<node, value>>, all above base
PeakOf(r) ==
  LET mx == FoldLeft(LAMBDA b, x : IF x[2] > b THEN x[2] ELSE b, r.base, r.plant)
  IN [max |-> mx,
      idx |-> IF mx = r.base THEN 0
              ELSE FoldLeft(LAMBDA b, x : IF x[2] = mx /\ (b < 0 \/ x[1] < b) THEN x[1] ELSE b,
                            -1, r.plant),
      sum |-> r.base * r.nodes + FoldLeft(LAMBDA b, x : b + x[2] - r.base, 0, r.plant)]

\* norm5 = round(1e5 * norm); norm * sum = max * nodes. Checked in whole and
\* fractional parts so that the products stay in range (sum at most 20000).
NormOK(norm5, p, nodes) ==
  LET q == (p.max * nodes) \div p.sum
      r == (p.max * nodes) % p.sum
  IN Abs(norm5 - (q * 100000 + (r * 100000) \div p.sum)) <= 2

PeakReject(k, e) ==
  LET p == [t \in 1..Len(e.s) |-> PeakOf(e.s[t])]
  IN CASE Len(e.max) # Len(e.s) \/ Len(e.idx) # Len(e.s) \/ Len(e.norm) # Len(e.s) -> "length"
       [] \E t \in 1..Len(e.s) : e.max[t] # 1000 * p[t].max -> "peak-value"
       [] \E t \in 1..Len(e.s) : e.idx[t] # p[t].idx -> "peak-node"
       [] \E t \in 1..Len(e.s) : ~NormOK(e.norm[t], p[t], e.s[t].nodes) -> "normalised-peak"
       [] OTHER -> ""

TStart(k) == ""      \* the digest seen first
TReject(k, st, e) ==
  CASE e.e = "migrate" -> MigrateReject(k, e)
    [] e.e = "peak" -> PeakReject(k, e)
    [] e.e = "same" -> IF st # "" /\ st # e.digest THEN "depends-on-threads-or-history" ELSE ""
    [] e.e = "raise" -> IF e.want # e.got THEN "exception" ELSE ""
    [] OTHER -> "unknown-event"
TStep(k, st, e) == IF e.e = "same" THEN e.digest ELSE st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
