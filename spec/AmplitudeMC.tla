------------------------------- MODULE AmplitudeMC -------------------------------
(***************************************************************************)
(* One station of one event: picks of any kind, its components in any state  *)
(* (missing, two pieces, too short, without response, complete), measured    *)
(* one after the other on data of a few levels.                              *)
(***************************************************************************)
EXTENDS Amplitude, TLC
CONSTANTS T, Sig, MaxHp, MaxHs, NoiseLen, L
VARIABLES p, s, rows, hp, hs, sig, state, y, done, tab
vars == <<p, s, rows, hp, hs, sig, state, y, done, tab>>
PickKinds == {<<"none">>, <<"no-pick">>} \cup {<<"pick", t>> : t \in 1..T}
States == {"missing", "split", "short", "no-response", "complete"}
Shapes == {f \in [1..(L + 1) -> 0..2] : \A k \in 1..L : f[k] # f[k + 1]}
Init == /\ p \in PickKinds /\ s \in PickKinds /\ rows \in BOOLEAN
        /\ (rows <=> (p[1] # "none" \/ s[1] # "none"))
        /\ hp \in 1..MaxHp /\ hs \in hp..MaxHs /\ sig \in 0..Sig
        /\ hs <= 3 * hp
        /\ state \in {f \in [1..3 -> States] : f[3] = "complete" /\ f[2] \in {f[1], "complete"}}
        /\ y \in {CHOOSE f \in Shapes : TRUE} \cup {f \in Shapes : f[1] = 0 /\ f[2] = 2 /\ f[4] = 1}
        /\ done = 0 /\ tab = <<>>
Arr == Arrivals(rows, p, s, 2, 4)
W == AmpWindows(Arr[1], Arr[2], hp, hs, sig)
Measure(w, k) ==
  LET lo == AMax(w[1] + 6, 0)
      hi == AMin(w[2] + 6, L)
      S == IF hi - lo < 3 THEN {} ELSE SwingSet(y, <<lo, hi>>)
  IN IF S = {} THEN <<>> ELSE LET b == Biggest(S) IN <<b[1], b[2], b[3], lo, hi>>
Row(k) == IF state[k] # "complete" \/ Arr[1] >= Arr[2]
          THEN [st |-> state[k], amp |-> << <<>>, <<>> >>, pk |-> FALSE]
          ELSE [st |-> state[k], amp |-> <<Measure(W[1], k), Measure(W[2], k)>>,
                pk |-> Picked(rows, p, s)]
Next == /\ done < 3
        /\ tab' = Append(tab, Row(done + 1))
        /\ done' = done + 1
        /\ UNCHANGED <<p, s, rows, hp, hs, sig, state, y>>
OneRowEach == Len(tab) = done /\ (done = 3 => DOMAIN tab = 1..3)
OnlyComplete == \A k \in DOMAIN tab : tab[k].amp # << <<>>, <<>> >> => state[k] = "complete"
\* the windows of a station follow each other without overlap, S after P, noise before P
Ordered == Arr[1] < Arr[2] =>
             /\ W[1][2] <= W[2][1]
             /\ NoiseWindow(W, NoiseLen)[2] <= W[1][1]
             /\ W[1][1] <= Arr[1]
             /\ W[2][2] >= Arr[2]
             /\ (W[1][2] < W[2][1] => W[1][2] >= Arr[1] + hp)
\* the swing measured lies in its window, starts and ends at turns, and none is larger
InWindow == \A k \in DOMAIN tab : \A i \in 1..2 :
              tab[k].amp[i] # <<>> => LET a == tab[k].amp[i]
                                      IN a[4] < a[1] /\ a[1] < a[2] /\ a[2] < a[5]
\* detrending leaves no slope: adding a line to the data changes no swing
Shifted == [k \in DOMAIN y |-> y[k] + 3 * k + 5]
LineFree == SwingSet(y, <<0, L>>) = SwingSet(Shifted, <<0, L>>)
PickedOnly == \A k \in DOMAIN tab : tab[k].pk => p[1] = "pick" \/ s[1] = "pick"
=============================================================================
