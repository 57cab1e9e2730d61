------------------------------ MODULE DetectTrace ------------------------------
(***************************************************************************)
(* Recorded QuakeScan.detect runs.                                          *)
(* Case: start, end, ts (samples; [start, end) requested), day, cont, on,   *)
(* tt, ofs (sample of the first column of on), names, nodes, steps known    *)
(* only through what happens:                                               *)
(*   av[i]     set (sequence) of the onsets available in step i             *)
(*   fate[i]   "ok" | "gap" | "empty" | "none" (no onset available)         *)
(* Events: "read" archive asked for a window, with what is on disk          *)
(*         "done" run over: files, records, availability; "killed" ditto    *)
(*         "table" availability as read back by read_availability           *)
(***************************************************************************)
EXTENDS Detect, Migration, TraceKit
VARIABLES c, l, s, v

NO(k, i) == Len(k.av[i])
FateAt(k, i) == IF i <= Len(k.fate) THEN k.fate[i] ELSE "ok"
\* the step a sample belongs to, 1-based
StepOf(k, t) == ((t - k.start) \div k.ts) + 1

\* log-sum of node n at absolute sample t over the onsets available
RECURSIVE SumOn(_, _, _, _, _)
SumOn(k, a, n, t, o) ==
  IF o = 0 THEN 0
  ELSE SumOn(k, a, n, t, o - 1) + k.on[a[o]][t + k.tt[n][a[o]] - k.ofs + 1]
Maps(k, a, t) == [n \in 1..Len(k.tt) |-> SumOn(k, a, n, t, Len(a))]

\* exp(s/n) in 1e-2 units: table per number of onsets
Ex(k, n, x) == k.ex[n][x + 1]
\* norm in 1e-3: max * nodes / sum of the map
NormOK2(k, no, m, norm3) ==
  LET nn == Len(m)
      sum == FoldLeft(LAMBDA b, x : b + Ex(k, no, x), 0, m)
      mx == Ex(k, no, MaxOver(m))
  IN Abs(norm3 * sum - 1000 * mx * nn) <= 2 * sum + 1000 * nn + norm3 * nn

RecReject(k, t, r) ==   \* r = <<1e3 * n * ln(coa), norm 1e3, node, zero?>>
  LET i == StepOf(k, t)
  IN IF FateAt(k, i) # "ok"
     THEN IF r[4] = 1 THEN "" ELSE "failed-step-not-zero"
     ELSE LET m == Maps(k, k.av[i], t)
              mx == MaxOver(m)
          IN CASE r[4] = 1 -> "zero-record"
               [] Abs(r[1] - 1000 * mx) > 20 -> "peak-value"
               [] r[3] \notin 1..Len(m) -> "coordinates-not-a-node"
               [] m[r[3]] # mx -> "peak-node"
               [] ~NormOK2(k, NO(k, i), m, r[2]) -> "normalised-peak"
               [] OTHER -> ""
\* first bad sample of a file's records (bounded search), "" if none
FileRecReject(k, f) ==
  LET bad == {j \in 1..Len(f.rec) : RecReject(k, f.first + j - 1, f.rec[j]) # ""}
  IN CASE Len(f.rec) # f.cnt -> "record-count"
       [] bad # {} -> RecReject(k, f.first + (CHOOSE j \in bad : \A x \in bad : j <= x) - 1,
                              f.rec[CHOOSE j \in bad : \A x \in bad : j <= x])
       [] OTHER -> ""
\* long runs: traveltimes are zero, one onset, blocks of constant value:
\* runs <<first, count, value, zero?>> in order; expected from k.block
RunOK(k, r) ==
  /\ StepOf(k, r[1]) <= 100000
  /\ LET i == StepOf(k, r[1])
         j == StepOf(k, r[1] + r[2] - 1)
     IN IF r[4] = 1
        THEN \A x \in i..j : FateAt(k, x) # "ok"
        ELSE /\ \A x \in i..j : FateAt(k, x) = "ok"
             /\ LET b == r[1] \div k.block
                    e == (r[1] + r[2] - 1) \div k.block
                IN \A x \in b..e : Abs(r[3] - 1000 * (x % 5)) <= 20
FileRunReject(k, f) ==
  CASE f.runs = <<>> -> "record-count"
    [] f.runs[1][1] # f.first -> "record-count"
    [] \E j \in 2..Len(f.runs) : f.runs[j][1] # f.runs[j-1][1] + f.runs[j-1][2] -> "record-count"
    [] f.runs[Len(f.runs)][1] + f.runs[Len(f.runs)][2] # f.first + f.cnt -> "record-count"
    [] \E j \in 1..Len(f.runs) : ~RunOK(k, f.runs[j]) -> "block-value"
    [] OTHER -> ""
FilesReject(k, fs) ==
  LET rj(f) == IF k.long THEN FileRunReject(k, f) ELSE FileRecReject(k, f)
      bad == {j \in 1..Len(fs) : rj(fs[j]) # ""}
  IN CASE \E j \in 1..Len(fs) : ~fs[j].whole -> "file-channels"
       [] bad # {} -> rj(fs[CHOOSE j \in bad : TRUE])
       [] OTHER -> ""

-----------------------------------------------------------------------------
(* Availability: rows in step order; days by the start of the step           *)
RowWant(k, i) == IF FateAt(k, i) # "ok" THEN [o \in 1..Len(k.names) |-> 0]
                 ELSE [o \in 1..Len(k.names) |->
                        IF \E j \in 1..Len(k.av[i]) : k.av[i][j] = o THEN 1 ELSE 0]
\* an observed table: cols (names) and rows [at, val]; val in the order of cols
ValOf(t, row, name) == row.val[CHOOSE j \in 1..Len(t.cols) : t.cols[j] = name]
RowReject(k, t, row, i) ==
  LET w == RowWant(k, i)
  IN CASE row.at # k.start + (i - 1) * k.ts -> "availability-row-time"
       [] \E o \in 1..Len(k.names) : ValOf(t, row, k.names[o]) # w[o] -> "availability-value"
       [] OTHER -> ""
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
RowsReject(k, t, S) ==   \* rows are exactly those of the steps in S, in order
  LET sq == SetToSortSeq(S, LAMBDA a, b : a < b)
      bad == {j \in 1..Len(t.rows) : RowReject(k, t, t.rows[j], sq[j]) # ""}
  IN
  CASE S = {} -> IF t.rows = <<>> THEN "" ELSE "availability-row-count"
    [] {t.cols[j] : j \in 1..Len(t.cols)} # {k.names[j] : j \in 1..Len(k.names)}
       \/ Len(t.cols) # Len(k.names) -> "availability-columns"
    [] Len(t.rows) # Len(sq) -> "availability-row-count"
    [] bad # {} -> RowReject(k, t, t.rows[MinS(bad)], sq[MinS(bad)])
    [] OTHER -> ""
StepStart(k, i) == k.start + (i - 1) * k.ts
StepsOfDays(k, n, d0, d1) == {i \in 1..n : DayOf(StepStart(k, i), k.day) \in d0..d1}
DaysTableReject(k, n, t, d0, d1) ==
  LET S == StepsOfDays(k, n, d0, d1)
  IN RowsReject(k, t, S)
AvailReject(k, n, tabs) ==
  LET days == {DayOf(StepStart(k, i), k.day) : i \in 1..n}
      bad == {j \in 1..Len(tabs) : DaysTableReject(k, n, tabs[j], tabs[j].day, tabs[j].day) # ""}
  IN CASE {tabs[j].day : j \in 1..Len(tabs)} # days \/ Len(tabs) # Cardinality(days)
            -> "availability-files"
       [] bad # {} -> DaysTableReject(k, n, tabs[CHOOSE j \in bad : TRUE],
                                      tabs[CHOOSE j \in bad : TRUE].day,
                                      tabs[CHOOSE j \in bad : TRUE].day)
       [] OTHER -> ""

MaxTT(k) == IF k.long THEN 0
            ELSE CHOOSE x \in {k.tt[n][o] : n \in 1..Len(k.tt), o \in 1..Len(k.names)} :
                   \A n \in 1..Len(k.tt) : \A o \in 1..Len(k.names) : k.tt[n][o] <= x

-----------------------------------------------------------------------------
(* state: number of windows asked for so far; after "done" a negative value  *)
TStart(k) == 0
DiskReject(k, i, disk) ==   \* after i whole steps
  LET b == k.start + i * k.ts
  IN CASE ~FilesPartial(disk, k.start, b, k.day) -> "day-files-mid-run"
       [] k.cont /\ ~FilesExact(disk, k.start, b, k.day) -> "continuous-write"
       [] OTHER -> ""
TReject(k, st, e) ==
  CASE e.e = "read" ->
         (CASE st < 0 -> "read-after-end"
            [] e.first > k.start + st * k.ts -> "window-start"
            [] e.last < k.start + (st + 1) * k.ts - 1 + MaxTT(k) -> "window-short"
            [] OTHER -> DiskReject(k, st, e.disk))
    [] e.e = "done" ->
         (CASE st * k.ts < k.end - k.start -> "span-not-covered"
            [] (st - 2) * k.ts >= k.end - k.start -> "too-many-steps"
            [] ~FilesExact(e.files, k.start, k.start + st * k.ts, k.day) -> "day-files"
            [] FilesReject(k, e.files) # "" -> FilesReject(k, e.files)
            [] AvailReject(k, st, e.avail) # "" -> AvailReject(k, st, e.avail)
            [] e.stray # <<>> -> "stray-file"
            [] OTHER -> "")
    [] e.e = "killed" ->
         (CASE DiskReject(k, st - 1, e.files) # "" -> DiskReject(k, st - 1, e.files)
            [] FilesReject(k, e.files) # "" -> FilesReject(k, e.files)
            [] OTHER -> "")
    [] e.e = "table" -> (* read_availability for the days d0..d1 *)
         (LET n == IF st < 0 THEN -st ELSE st
              gone == IF Has(e, "gone") THEN RangeOf(e.gone) ELSE {}
              S == {i \in StepsOfDays(k, n, e.d0, e.d1) : DayOf(StepStart(k, i), k.day) \notin gone}
          IN CASE S = {} -> IF e.raised = "NoStationAvailabilityDataException" THEN ""
                            ELSE "no-availability-error"
               [] e.raised # "" -> "availability-error"
               [] OTHER -> RowsReject(k, e.t, S))
    [] e.e = "written" -> IF e.stray # <<>> THEN "stray-file" ELSE AvailReject(k, e.n, e.avail)
    [] e.e = "raise" -> IF e.got = e.want THEN "" ELSE "exception"
    [] OTHER -> "unknown-event"
TStep(k, st, e) == CASE e.e = "read" -> st + 1
                     [] e.e = "done" -> -st
                     [] e.e = "written" -> -e.n
                     [] OTHER -> st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
