------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* What a catalogue read from a run, and the files exported from it, say.   *)
(*                                                                           *)
(* An event's files: origin, uncertainties and coalescence values (.event),  *)
(* rows of phases (.picks), rows of components (.amps, perhaps none), as      *)
(* numbers. A number that may be absent is a sequence of at most one          *)
(* number. A point in time is <<second, microsecond>>. A length of the grid   *)
(* is <<whole, millionths>> of the unit of the grid projection.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* Lengths: metres on the catalogue's side, here as millimetres. *)
Millimetres(len, units) ==
  IF units = "km" THEN len[1] * 1000000 + len[2] ELSE len[1] * 1000 + (len[2] \div 1000)
(* Degrees of a great circle of a sphere of 6371 km, in millionths. *)
MicroDegrees(mm) == ((mm \div 1000) * 8993) \div 1000 + (((mm % 1000) * 9) \div 1000)

(* The picks of an event: one modelled arrival for each row, and one automatic *)
(* for each row with a pick.                                                  *)
Modelled(row) == [sta |-> row.sta, ph |-> row.ph, method |-> "modelled", t |-> row.mt,
                  err |-> <<>>, snr |-> <<>>]
Auto(row) == [sta |-> row.sta, ph |-> row.ph, method |-> "autopick", t |-> row.pt[1],
              err |-> row.err, snr |-> row.snr]
RECURSIVE PicksOf(_)
PicksOf(rows) ==
  IF rows = <<>> THEN <<>>
  ELSE <<Modelled(Head(rows))>> \o (IF Head(rows).pt = <<>> THEN <<>> ELSE <<Auto(Head(rows))>>)
       \o PicksOf(Tail(rows))

(* The amplitudes: one for each row and phase measured; the phase local       *)
(* magnitudes were made from gives a station magnitude where there is one.     *)
Measured(row, ph) == LET a == IF ph = "P" THEN row.P ELSE row.S IN a.amp # <<>>
RECURSIVE AmpsOf(_, _)
AmpsOf(rows, k) ==
  IF k > 2 * Len(rows) THEN <<>>
  ELSE LET row == rows[(k + 1) \div 2]
           ph == IF (k % 2) = 1 THEN "P" ELSE "S"
       IN (IF Measured(row, ph)
           THEN <<[id |-> row.id, ph |-> ph, m |-> IF ph = "P" THEN row.P ELSE row.S,
                   noise |-> row.noise]>>
           ELSE <<>>) \o AmpsOf(rows, k + 1)
RECURSIVE MagsOf(_, _)
MagsOf(rows, mph) ==
  IF rows = <<>> THEN <<>>
  ELSE LET row == Head(rows)
       IN (IF Measured(row, mph) /\ row.ml # <<>>
           THEN <<[id |-> row.id, ml |-> row.ml, err |-> row.mlerr, picked |-> row.picked,
                   epi |-> row.epi, z |-> row.z]>>
           ELSE <<>>) \o MagsOf(Tail(rows), mph)

(* A run as files: which events a catalogue of it has. *)
Catalogued(disk) == {i \in DOMAIN disk : disk[i].picks # <<>>}

(* Printed numbers. Digits(n, w): n with leading zeros to w digits; a fraction *)
(* is read as its digits after the point, whatever their number.              *)
RECURSIVE Digits(_, _)
Digits(n, w) == IF w = 0 THEN <<>> ELSE Digits(n \div 10, w - 1) \o <<n % 10>>
RECURSIVE Plain(_)
Plain(n) == IF n < 10 THEN <<n>> ELSE Plain(n \div 10) \o <<n % 10>>
RECURSIVE Number(_)
Number(ds) == IF ds = <<>> THEN 0
              ELSE Number(SubSeq(ds, 1, Len(ds) - 1)) * 10 + ds[Len(ds)]
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
RECURSIVE Fraction(_, _)
Fraction(ds, scale) == IF Len(ds) > 6 THEN Fraction(SubSeq(ds, 1, 6), scale)
                       ELSE Number(ds) * Pow10(scale - Len(ds))
(* Rounding to w digits may carry into the seconds. *)
Rounded(us, w, scale) ==
  LET step == Pow10(scale - w) IN (us + step \div 2) \div step

(* A marker has the microseconds. *)
MarkerDigits(us, scale) == Digits(us, scale)
(* A phase line: the minute and seconds to four digits. *)
SamePhaseTime(min, secs, ds, t, scale) ==
  LET us == (min + secs - t[1]) * Pow10(scale) + Fraction(ds, scale) - t[2]
  IN us <= Pow10(scale - 4) /\ us >= -Pow10(scale - 4)

(* Waveform files: which picks are given: the automatic one where there is     *)
(* one, else the modelled one.                                                 *)
Given(rows, sta, ph) ==
  {IF rows[i].pt # <<>> THEN rows[i].pt[1] ELSE rows[i].mt :
     i \in {j \in DOMAIN rows : rows[j].sta = sta /\ rows[j].ph = ph}}
(* A file for each component there are waveforms of, of stations with an S arrival *)
Filed(rows, waves) ==
  {w \in waves : w[2] \in {"Z", "N", "E"} /\ Given(rows, w[1], "S") # {}}
=============================================================================
