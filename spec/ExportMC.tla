------------------------------ MODULE ExportMC ------------------------------
(***************************************************************************)
(* Design: a run's directory gains events, picks and amplitudes in any      *)
(* order and the catalogue is read at any time. Small times with W digits of *)
(* a second (scale W) are printed and read back.                              *)
(***************************************************************************)
EXTENDS Export, FiniteSets, TLC
CONSTANTS Ids, Stas, W
VARIABLES disk, cat, printed
vars == <<disk, cat, printed>>
Us == 0..(Pow10(W) - 1)
Times == {<<s, u>> : s \in 0..1, u \in {0, 1, 5, Pow10(W - 1), Pow10(W) - 1}}
Row(sta, ph, mt, pt) == [sta |-> sta, ph |-> ph, mt |-> mt, pt |-> pt,
                         err |-> IF pt = <<>> THEN <<>> ELSE <<1>>,
                         snr |-> IF pt = <<>> THEN <<>> ELSE <<2>>]
Rows == {Row(s, ph, t, p) : s \in Stas, ph \in {"P", "S"}, t \in {<<0, 1>>},
         p \in {<<>>, <<<<0, 0>>>>, <<<<1, 5>>>>}}
Lists == {<<>>} \cup {<<a>> : a \in Rows} \cup {<<a, b>> : a \in Rows, b \in Rows}
Init == disk = << >> /\ cat = {} /\ printed = <<>>
Put(i) == /\ i \notin DOMAIN disk
          /\ \E q \in Lists : disk' = disk @@ (i :> [picks |-> q])
          /\ UNCHANGED <<cat, printed>>
Read == /\ cat' = {<<i, PicksOf(disk[i].picks)>> : i \in Catalogued(disk)}
        /\ UNCHANGED <<disk, printed>>
Write == /\ printed = <<>> /\ DOMAIN disk = {}
         /\ \E s \in 0..1, u \in Us :
              printed' = <<s, u, MarkerDigits(u, W), Rounded(u, W - 1, W)>>
         /\ UNCHANGED <<disk, cat>>
Next == IF printed # <<>> THEN FALSE ELSE (\E i \in Ids : Put(i)) \/ Read \/ Write
Spec == Init /\ [][Next]_vars

OnePerEvent == \A a, b \in cat : a[1] = b[1] => a = b
NothingInvented == \A x \in cat :
  /\ x[1] \in DOMAIN disk
  /\ \A k \in DOMAIN x[2] : \E r \in DOMAIN disk[x[1]].picks :
       LET p == x[2][k] row == disk[x[1]].picks[r]
       IN p.sta = row.sta /\ p.ph = row.ph /\ <<p.t>> = (IF p.method = "modelled" THEN <<row.mt>> ELSE row.pt)
NothingLost == \A x \in cat :
  Len(x[2]) = Len(disk[x[1]].picks)
              + Cardinality({r \in DOMAIN disk[x[1]].picks : disk[x[1]].picks[r].pt # <<>>})
ReadBack == printed = <<>> \/
  /\ Fraction(printed[3], W) = printed[2]
  /\ LET d == Digits(printed[4] % Pow10(W - 1), W - 1)
         back == Fraction(d, W) + (printed[4] \div Pow10(W - 1)) * Pow10(W)
     IN back - printed[2] \in -5..5
(* without leading zeros it would not read back *)
PlainWouldNot == \E u \in Us : Fraction(Plain(u), W) # u
ASSUME PlainWouldNot
ASSUME \A mm \in {0, 999, 111195, 1000000, 25000000} :
         LET d == MicroDegrees(mm) IN (d * 111) \div 1000 - mm \div 1000 \in -((mm \div 100000) + 2)..2
ASSUME Millimetres(<<-1, 500000>>, "km") = -500000 /\ Millimetres(<<-1, 500000>>, "m") = -500
(* a given pick is the automatic one *)
ASSUME \A a \in Rows : Given(<<a>>, a.sta, a.ph)
         = {IF a.pt = <<>> THEN a.mt ELSE a.pt[1]}
=============================================================================
