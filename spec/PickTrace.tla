------------------------------- MODULE PickTrace -------------------------------
(***************************************************************************)
(* "station": n samples; mult (units of 0.1) or perm (permille) by `method`; *)
(* ph: one record per row of the pick table for the station                   *)
(*   on      onset values in thousandths                                     *)
(*   arr4, half4  modelled arrival and half-width in 1e-4 samples             *)
(*   win     window reported (first, arrival, end)                           *)
(*   model, wantm   modelled time reported / meant, in microseconds           *)
(*   pick    whether any pick field is other than the no-pick value           *)
(*   none    number of pick fields with the no-pick value                     *)
(*   t4      pick time in 1e-4 samples, err (microseconds), snr (1e-3),       *)
(*   res, t  residual and pick time in microseconds                           *)
(*   plant   <<>> or <<centre (1e-4), sigma (microseconds), height>> of a     *)
(*           Gaussian that stands alone in the window                         *)
(* "table": want, got: station-phases with an onset / rows; file: rows of the *)
(* file that differ from the table.                                          *)
(***************************************************************************)
EXTENDS Pick, TraceKit
VARIABLES c, l, s, v
Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)
\* values above one outside the windows, in order
Noise(on, W) == Sorted(SelectSeq([k \in 1..Len(on) |->
                  IF on[k] > 1000 /\ \A i \in DOMAIN W : ~InWin(W[i], k - 1) THEN on[k] ELSE 0],
                  LAMBDA x : x > 0))
\* -1: no threshold
Threshold(e, q) ==
  IF q = <<>> THEN -1
  ELSE IF e.method = "percentile" THEN Quantile(q, e.perm)
  ELSE LET m2 == Median2(q)
           d2 == Median2(Sorted([i \in DOMAIN q |-> Abs(2 * q[i] - m2)]))
       IN \* med + mult * 1.4826 * mad; m2 = 2 med, d2 = 4 mad
          (m2 \div 2) + ((((d2 * 1483) \div 1000) * e.mult) \div 40)
\* candidates for a sample number given to 1e-4
Near(x4) == {k \in ((x4 \div 10000) - 1)..((x4 \div 10000) + 2) : Within(10000 * k, x4, 5010)}

RowReject(e, W, i) ==
  LET p == e.ph[i]
      w == W[i]
      T == Threshold(e, Noise(p.on, W))
      M == IF w[1] < w[2] THEN Largest({p.on[k + 1] : k \in w[1]..(w[2] - 1)}) ELSE -1
  IN CASE p.on # <<>> /\ ~Within(p.model, p.wantm, 3) -> "modelled-time"
       [] ~p.pick /\ p.none # 4 -> "no-pick-value"
       [] p.pick /\ p.none # 0 -> "no-pick-value"
       [] p.pick /\ T = -1 -> "pick-without-noise"
       [] p.pick /\ M < T - 3 -> "below-threshold"
       [] p.pick /\ (p.t4 < 10000 * w[1] - 20 \/ p.t4 > 10000 * w[2] + 20) -> "pick-outside-window"
       [] p.pick /\ p.err <= 0 -> "error-positive"
       [] p.pick /\ ~Within(p.res, p.t - p.model, 3) -> "residual"
       [] p.plant # <<>> /\ T # -1 /\ p.plant[3] > T + 100 /\ ~p.pick -> "clear-peak-missed"
       [] p.plant # <<>> /\ p.pick /\ ~Within(p.t4, p.plant[1], 3000) -> "pick-time"
       [] p.plant # <<>> /\ p.pick /\ ~Within(p.err, p.plant[2], 2000 + (p.plant[2] \div 10)) -> "pick-error"
       [] p.plant # <<>> /\ p.pick /\ ~Within(p.snr, p.plant[3], 20 + (p.plant[3] \div 20)) -> "pick-snr"
       [] OTHER -> ""

StationReject(e) ==
  LET P == DOMAIN e.ph
      arr == [i \in P |-> e.ph[i].win[2]]
      H == [i \in P |-> Near(e.ph[i].half4)]
      W == [i \in P |-> <<e.ph[i].win[1], e.ph[i].win[3]>>]
      badw == {i \in P :
                 /\ \A h \in H[i] : LET hh == [j \in P |-> h]
                                    IN W[i] # <<Lo(arr, hh, i), Hi(arr, hh, e.n, i)>>}
      badr == {i \in P : RowReject(e, W, i) # ""}
  IN CASE \E i \in P : Len(e.ph[i].on) # e.n -> "onset-length"
       [] \E i \in P : arr[i] \notin Near(e.ph[i].arr4) -> "window-arrival"
       [] badw # {} -> "window"
       [] badr # {} -> RowReject(e, W, CHOOSE i \in badr : TRUE)
       [] OTHER -> ""
TableReject(e) ==
  CASE e.got # e.want -> "rows"
    [] e.file # 0 -> "file"
    [] ~e.pure -> "input-changed"
    [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) == CASE e.e = "station" -> StationReject(e)
                       [] e.e = "table" -> TableReject(e)
                       [] OTHER -> "unknown-event"
TStep(k, st, e) == st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
