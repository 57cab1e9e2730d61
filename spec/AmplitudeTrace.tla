----------------------------- MODULE AmplitudeTrace -----------------------------
(***************************************************************************)
(* Times in microseconds after the origin time.                              *)
(* "row": one component of one station                                       *)
(*   pre, post   what the measurement needs before and after the origin       *)
(*   resp        a response is available                                     *)
(*   rows, p, s, modp, mods, hp, hs, sig, noise   as in Amplitude.tla         *)
(*   trs         the traces of the component, <<t0, n>>; dt                   *)
(*   y           values (as filtered) of the first trace that overlaps the    *)
(*               needed window; yo is the sample number of y[1]              *)
(*   tol         of a swing, in thousandths of the unit of y                  *)
(*   gain        <<>> or gain[N] (1e-5) at half a period of N samples         *)
(*   got         P, S: <<>> or <<amplitude (1e-3 of y), half period (1e-3      *)
(*               samples), time, average, gain (1e-5)>>; the amplitudes as     *)
(*               reported times the gain reported                            *)
(*   nz          <<>> or <<noise average>>; none: number of columns of P and   *)
(*               S partly filled                                             *)
(*   ref         P, S, noise: <<first, last, average>> reference values        *)
(*   pk          is_picked                                                   *)
(*   id, wantid; ed, zd, wanted, wantzd distances in metres                   *)
(* "table": want, got names of rows; file: fields that differ in the file;     *)
(*   pure: stored waveforms, picks and table left as they were                *)
(* "phys": exp, got amplitudes of a known ground displacement                *)
(***************************************************************************)
EXTENDS Amplitude, TraceKit
VARIABLES c, l, s, v
Tol == 600
Overlaps(e, tr) == tr[1] <= e.post /\ tr[1] + (tr[2] - 1) * e.dt >= -e.pre
Sel(e) == SelectSeq(e.trs, LAMBDA tr : Overlaps(e, tr))
\* numbers too large to multiply: a in units of Den, to a thousandth
Milli(a, D) == ((a \div D) * 1000) + (((a % D) * 1000) \div D)
\* Filtered values are given rounded: a step that rounding could turn is not certain, and the
\* swings that are certain are pieces of those of the data.
Sure(y, B, D, k, eps) == AAbs(Rise(y, B, D, k, k + 1)) > eps * D
SureTurn(y, B, D, w, k, eps) ==
  Turn(y, B, D, w[1], w[2], k) /\ Sure(y, B, D, k - 1, eps) /\ Sure(y, B, D, k, eps)
RECURSIVE Pieces(_, _, _, _, _, _, _, _)
\* scan from k with the last turn or break at u (-1 before the first certain turn)
Pieces(y, B, D, w, k, u, S, eps) ==
  IF k >= w[2] THEN S
  ELSE IF SureTurn(y, B, D, w, k, eps)
          \/ (u # -1 /\ (~Sure(y, B, D, k - 1, eps) \/ ~Sure(y, B, D, k, eps)))
       THEN Pieces(y, B, D, w, k + 1, k,
                   IF u = -1 \/ \A m \in k..w[2] : ~SureTurn(y, B, D, w, m, eps) THEN S
                   ELSE S \cup {<<u, k, AAbs(Rise(y, B, D, u, k))>>}, eps)
       ELSE Pieces(y, B, D, w, k + 1, u, S, eps)
Gain(e, N) == IF e.gain = <<>> THEN 1 ELSE e.gain[N]

\* what is cut out is what is needed to within a sample
Wide(S) == UNION {{k - 1, k, k + 1} : k \in S}

\* one phase: w the window in time, g what was reported, r the references
PhaseOk(e, w, g, r) ==
  LET t0 == Sel(e)[1][1]
      lo == Near(-e.pre, t0, e.dt, Tol)
      hi == Near(e.post, t0, e.dt, Tol)
      last == Sel(e)[1][2] - 1
      Ws == UNION {SampleWindows(w, t0, e.dt, Tol, AMax(a, 0), AMin(b, last)) : a \in Wide(lo), b \in Wide(hi)}
      Fits(q) ==
        LET yw == <<q[1] - e.yo, q[2] - e.yo>>
            n == (q[2] - q[1]) + 1
            D == Den(n)
            B == 6 * Slope6(e.y, yw[1], n, 0)
            exact == SwingSet(e.y, yw)
            eps == IF e.tol <= 20 THEN 0 ELSE 2
            pieces == Pieces(e.y, B, D, yw, yw[1] + 1, -1, {}, eps)
            S == IF n < 4 \/ pieces = {} \/ \A k \in yw[1]..(yw[2] - 1) : Sure(e.y, B, D, k, eps)
                 THEN exact ELSE pieces
            unsure == \E k \in yw[1]..(yw[2] - 1) : ~Sure(e.y, B, D, k, eps)
            flat == n < 4 \/ \A k \in yw[1]..yw[2] : e.y[k + 1] = e.y[yw[1] + 1]
        IN IF flat THEN g = <<>>
           ELSE IF S = {} /\ ~unsure THEN g = <<>>
           ELSE IF S = {} THEN TRUE
           ELSE LET big == Biggest(S)
                    N == (g[2] + 500) \div 1000
                    h == (2 * (g[3] - t0) + (e.dt \div 2)) \div e.dt    \* i + j
                    i == ((h - N) \div 2) - e.yo
                    j == i + N
                IN IF g = <<>>
                   \* a swing at a frequency that the filter takes away cannot be scaled back
                   THEN \E z \in S : /\ Within(Milli(z[3], D), Milli(big[3], D), e.tol)
                                     /\ Gain(e, z[2] - z[1]) = 0
                   ELSE /\ N >= 1 /\ Within(g[2], 1000 * N, 30)
                        /\ Within(2 * (g[3] - t0), h * e.dt, 40)
                        /\ (h - N) % 2 = 0
                        /\ yw[1] < i /\ j < yw[2]
                        /\ Gain(e, N) > 0
                        /\ (e.gain = <<>> <=> g[5] = 0)
                        /\ (e.gain # <<>> => Within(g[5], Gain(e, N), 2 + (Gain(e, N) \div 1000)))
                        \* twice the half amplitude, without the gain, is the swing from i to j,
                        \* which goes one way and is (one of) the largest
                        /\ Within(2 * g[1], Milli(AAbs(Rise(e.y, B, D, i, j)), D), e.tol)
                        /\ Milli(big[3], D) - e.tol <= 2 * g[1]
                        /\ \/ \E z \in S : z[1] = i /\ z[2] = j
                           \/ /\ unsure
                              /\ \A k \in i..(j - 1) :
                                   LET one == Rise(e.y, B, D, k, k + 1)
                                   IN (IF Rise(e.y, B, D, i, j) > 0 THEN one ELSE -one) >= -eps * D
                        /\ \E x \in RangeOf(r) :
                             /\ x[1] = q[1] /\ x[2] = q[2]
                             /\ Within(g[4], x[3], 5 + (x[3] \div 100))
  IN \E q \in Ws : Fits(q)
NoiseOk(e, w) ==
  LET t0 == Sel(e)[1][1]
      last == Sel(e)[1][2] - 1
      Ws == UNION {SampleWindows(w, t0, e.dt, Tol, AMax(a, 0), AMin(b, last)) :
                     a \in Wide(Near(-e.pre, t0, e.dt, Tol)),
                     b \in Wide(Near(e.post, t0, e.dt, Tol))}
  IN \E q \in Ws :
       LET flat == q[2] < q[1] \/ \A k \in q[1]..q[2] : e.y[k - e.yo + 1] = e.y[q[1] - e.yo + 1]
       IN IF flat THEN e.nz = <<>>
          ELSE e.nz # <<>> /\ \E x \in RangeOf(e.ref[3]) :
                  x[1] = q[1] /\ x[2] = q[2] /\ Within(e.nz[1], x[3], 5 + (x[3] \div 200))
RowReject(e) ==
  LET arr == Arrivals(e.rows, e.p, e.s, e.modp, e.mods)
      W == AmpWindows(arr[1], arr[2], e.hp, e.hs, e.sig)
      one == Len(Sel(e)) = 1
      blank == e.got[1] = <<>> /\ e.got[2] = <<>> /\ e.nz = <<>>
      must == one /\ e.resp /\ ClearlyCovers(Sel(e)[1], e.dt, -e.pre, e.post)
      cannot == ~one \/ ~e.resp \/ CannotCover(Sel(e)[1], e.dt, -e.pre, e.post)
  IN CASE e.id # e.wantid -> "row-id"
       [] ~Within(e.ed, e.wanted, 2 + (e.wanted \div 1000)) -> "epicentral-distance"
       [] ~Within(e.zd, e.wantzd, 2) -> "vertical-distance"
       [] e.none > 0 -> "partly-filled"
       [] cannot /\ ~blank -> "measured-without-data"
       [] cannot -> ""
       [] ~must /\ blank -> ""       \* coverage to within the shift of a cut
       [] arr[1] >= arr[2] -> IF blank THEN "" ELSE "measured-picks-out-of-order"
       [] e.pk # Picked(e.rows, e.p, e.s) -> "is-picked"
       [] ~PhaseOk(e, W[1], e.got[1], e.ref[1]) -> "P-amplitude"
       [] ~PhaseOk(e, W[2], e.got[2], e.ref[2]) -> "S-amplitude"
       [] ~NoiseOk(e, NoiseWindow(W, e.noise)) -> "noise"
       [] OTHER -> ""
TableReject(e) ==
  CASE e.got # e.want -> "rows"
    [] e.file # 0 -> "file"
    [] ~e.pure -> "input-changed"
    [] OTHER -> ""
PhysReject(e) == IF Within(e.got, e.exp, e.exp \div 20) THEN "" ELSE "ground-motion"
TStart(k) == 0
TReject(k, st, e) == CASE e.e = "row" -> RowReject(e)
                       [] e.e = "table" -> TableReject(e)
                       [] e.e = "phys" -> PhysReject(e)
                       [] OTHER -> "unknown-event"
TStep(k, st, e) == st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
