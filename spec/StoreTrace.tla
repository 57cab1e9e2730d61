------------------------------ MODULE StoreTrace ------------------------------
(***************************************************************************)
(* Case: v[j] = <<C, N, X, Y, Z>> of sample first + j - 1, each as            *)
(* <<whole, frac>>, <<>> where nothing is stored;                            *)
(* written through ScanmSEED (chunks) or put in day files; "read" events are *)
(* read_scanmseed calls for a window a..b (samples, pads included).          *)
(***************************************************************************)
EXTENDS Store, TraceKit
VARIABLES c, l, s, v
U == <<10000000, 10000000, 100000000, 100000000, 1000000>>
P == <<100, 100, 100, 100, 1000>>
Name == <<"coalescence-value", "normalised-value", "x-value", "y-value", "z-value">>

StoredSet(k) == {t \in k.first..(k.first + Len(k.v) - 1) : k.v[t - k.first + 1] # <<>>}
BadAt(got, want, ch) ==
  ~Near(got[ch], IF ch <= 2 THEN Clip(want[ch]) ELSE want[ch], U[ch], P[ch])
IsStored(k, t) == k.v[t - k.first + 1] # <<>>
BadSet(k, r) == {j \in 1..Len(r.v) : IsStored(k, r.first + j - 1) /\ \E ch \in 1..5 :
                   BadAt(r.v[j], k.v[r.first - k.first + j], ch)}
BadName(k, r, j) == Name[CHOOSE ch \in 1..5 : BadAt(r.v[j], k.v[r.first - k.first + j], ch)]

ReadReject(k, e) ==
  LET got == e.first..(e.first + Len(e.v) - 1)
      stored == StoredSet(k)
      want == {t \in stored : e.a <= t /\ t <= e.b}
      bad == BadSet(k, e)
  IN CASE e.raised # "" -> IF want = {} /\ e.raised = "NoScanMseedDataException" THEN ""
                           ELSE "read-error"
       [] want = {} -> "no-data-not-reported"
       [] ~e.contig -> "times-not-contiguous"
       [] ~(got \subseteq e.a..e.b) -> "outside-window"
       [] ~(want \subseteq got) -> "samples-dropped"
       [] ~ReadOK(stored, e.a, e.b, got) -> "invented-samples"
       [] \E j \in 1..Len(e.v) : ~IsStored(k, e.first + j - 1)
            /\ \E ch \in 1..5 : e.v[j][ch] # <<0, 0>> -> "invented-values"
       [] bad # {} -> BadName(k, e, CHOOSE j \in bad : TRUE)
       [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) == CASE e.e = "read" -> ReadReject(k, e)
                       [] OTHER -> "unknown-event"
TStep(k, st, e) == st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
