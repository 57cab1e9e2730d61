------------------------------- MODULE PadsMC -------------------------------
(***************************************************************************)
(* A scan: windows of L samples one after another, of a total that need not *)
(* be a multiple; each reads data with the documented pads, tapers its ends, *)
(* and migrates. Every sample is scanned from onsets of untouched data, and   *)
(* windows begin on the grid of the data. The phases may have different       *)
(* windows; the pads are made for the longest of each.                        *)
(***************************************************************************)
EXTENDS Pads, FiniteSets
CONSTANTS Rates, Fs, MaxSta, MaxLta, TTs, Ls, Steps
VARIABLES R, F, sta, lta, cen, tt, L, k, read, scanned
vars == <<R, F, sta, lta, cen, tt, L, k, read, scanned>>
Ph == {1, 2}
Mx(f) == IF f[1] > f[2] THEN f[1] ELSE f[2]
Init == /\ R \in Rates /\ F \in Fs
        /\ sta \in [Ph -> 1..MaxSta] /\ lta \in [Ph -> 1..MaxLta] /\ \A p \in Ph : sta[p] <= lta[p]
        /\ cen \in BOOLEAN /\ tt \in TTs /\ L \in Ls
        /\ k = 0 /\ read = <<>> /\ scanned = {}
P == PadsOf(Mx(sta), Mx(lta), tt * F, L * F, F, R)
Read == /\ k < Steps /\ read = <<>>
        /\ read' = [first |-> k * L - P[1], n |-> P[1] + L + P[2]]
        /\ UNCHANGED <<R, F, sta, lta, cen, tt, L, k, scanned>>
Migrate == /\ read # <<>>
           /\ scanned' = scanned \cup {read.first + i : i \in P[1] .. P[1] + L - 1}
           /\ read' = <<>> /\ k' = k + 1
           /\ UNCHANGED <<R, F, sta, lta, cen, tt, L>>
Next == Read \/ Migrate
W(p) == Window(sta[p], lta[p], cen, F)
Untouched == read # <<>> => \A p \in Ph : Covered(W(p), P[1], L, P[2], tt)
EverySample == read = <<>> => scanned = 0 .. k * L - 1
Each == read # <<>> => \A p \in Ph, i \in P[1] .. P[1] + L - 1 + tt : Sound(W(p), read.n, i) /\ ~Spoilt(W(p), read.n, i)
=============================================================================
