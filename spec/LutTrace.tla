-------------------------------- MODULE LutTrace --------------------------------
(***************************************************************************)
(* Histories of lookup-table operations on the real class. State: handle ->  *)
(* view (Lut.tla). Case tables, computed independently of the code:          *)
(*   grid[b]  [n, sp (mm), ll (mm)]        base grids                        *)
(*   src[j]   [base, v (m/s per phase), xyz (mm), tt[phase][node] (microsec)] *)
(* After every operation every table is observed ("look").                  *)
(***************************************************************************)
EXTENDS Lut, TraceKit
VARIABLES c, l, s, v

BaseView(e, k) == [base |-> e.base, off |-> <<0, 0, 0>>, step |-> <<1, 1, 1>>,
                   n |-> k.grid[e.base].n, st |-> e.st]
NodePlace(k, w, i) == Flat(Place(w, i), k.grid[w.base].n) + 1
PlacesOf(k, w) == [f \in 1..Count(w.n) |-> NodePlace(k, w, Unflat(f - 1, w.n))]

\* the base tables are straight-line times: t * v = distance, in units of 0.1 m
Dm(x) == x \div 100
Dist2(k, j, p) ==
  LET g == k.grid[k.src[j].base]
      i == Unflat(p - 1, g.n)
      dd(d) == Dm(g.ll[d] + i[d] * g.sp[d] - k.src[j].xyz[d])
  IN dd(1) * dd(1) + dd(2) * dd(2) + dd(3) * dd(3)
StraightOK(k, j, ph, p) ==
  LET r == ((k.src[j].tt[ph][p] \div 100) * k.src[j].v[ph]) \div 1000   \* 0.1 m
  IN Abs(r * r - Dist2(k, j, p)) <= 16 * r + 64

Near1(a, b, tol) == Abs(a - b) <= tol
\* corner k of a view in mm
CornerMM(k, w, i) == [d \in Dim |-> k.grid[w.base].ll[d]
                        + Place(w, i)[d] * k.grid[w.base].sp[d]]
LastIdx(w) == [d \in Dim |-> w.n[d] - 1]

Served(w, k, sta, ph, f) ==
  LET j == w.st[CHOOSE x \in DOMAIN w.st : w.st[x][1] = sta][2]
  IN k.src[j].tt[ph][NodePlace(k, w, Unflat(f - 1, w.n))]

LookReject(k, w, e) ==
  LET pl == PlacesOf(k, w)
      N == Count(w.n)
  IN CASE e.n # w.n -> "node-count"
       [] \E d \in Dim : ~Near1(e.sp[d], k.grid[w.base].sp[d] * w.step[d], 1) -> "node-spacing"
       [] \E d \in Dim : ~Near1(e.c0[d], CornerMM(k, w, <<0, 0, 0>>)[d], 2)
                         \/ ~Near1(e.c1[d], CornerMM(k, w, LastIdx(w))[d], 2) -> "grid-corners"
       [] e.corners # [x \in 1..8 |-> NodePlace(k, w,
              <<IF x > 4 THEN w.n[1] - 1 ELSE 0,
                IF (x - 1) % 4 >= 2 THEN w.n[2] - 1 ELSE 0,
                IF x % 2 = 0 THEN w.n[3] - 1 ELSE 0>>)] -> "corner-nodes"
       [] e.ext # <<NodePlace(k, w, <<0, 0, 0>>), NodePlace(k, w, LastIdx(w))>> -> "grid-extent"
       [] e.cells # <<-1, -1, -1, 1, 1, 1>> -> "cell-extent"
       [] e.place # pl -> "node-coordinates"
       [] e.xyz # pl -> "grid-xyz-layout"
       [] e.back # [f \in 1..N |-> f] -> "index-round-trip"
       [] e.stn # [x \in DOMAIN w.st |-> w.st[x][1]] -> "stations"
       [] e.data # [x \in DOMAIN w.st |-> w.st[x][1]] -> "station-data"
       [] e.frac # k.frac -> "fraction-tt"
       [] e.phases # k.phases -> "phases"
       [] Len(e.tt) # Len(w.st) -> "stations-served"
       [] \E x \in DOMAIN w.st : \E ph \in DOMAIN k.phases : Len(e.tt[x][ph]) # N -> "table-shape"
       [] \E x \in DOMAIN w.st : \E ph \in DOMAIN k.phases : \E f \in 1..N :
             ~Near1(e.tt[x][ph][f], Served(w, k, w.st[x][1], ph, f), 2) -> "traveltime-of-place"
       [] ~Near1(e.max, FoldLeft(LAMBDA b, x : Max2(b, x), 0,
              [q \in 1..(N * Len(w.st) * Len(k.phases)) |->
                 Served(w, k, w.st[((q - 1) % Len(w.st)) + 1][1],
                        (((q - 1) \div Len(w.st)) % Len(k.phases)) + 1,
                        ((q - 1) \div (Len(w.st) * Len(k.phases))) + 1)]), 2) -> "max-traveltime"
       [] OTHER -> ""

\* served in samples for some available entries: e.ask = seq of <<station, phase>>
RoundOK(smp, us, sr) == Abs(smp * 1000000 - us * sr) <= 500000 + sr + 2
ServeReject(k, w, e) ==
  CASE Len(e.out) # Len(e.ask) -> "served-order"
    [] \E q \in 1..Len(e.ask) : Len(e.out[q]) # Count(w.n) -> "served-shape"
    [] \E q \in 1..Len(e.ask) : \E f \in 1..Count(w.n) :
         ~RoundOK(e.out[q][f], Served(w, k, e.ask[q][1], e.ask[q][2], f), e.sr) -> "served-samples"
    [] OTHER -> ""

\* trilinear interpolation at quarter positions: ijk in quarters of a node
Low(q, n) == IF n = 1 THEN 0 ELSE IF q \div 4 >= n - 1 THEN n - 2 ELSE q \div 4
Corner8(b, x, n) == <<b[1] + (x \div 4), b[2] + ((x \div 2) % 2), b[3] + (x % 2)>>
Wt(q, b, up) == IF up = 1 THEN q - 4 * b ELSE 4 - (q - 4 * b)
Interp64(k, w, sta, ph, q) ==
  LET b == <<Low(q[1], w.n[1]), Low(q[2], w.n[2]), Low(q[3], w.n[3])>>
      F[x \in 0..8] ==
        IF x = 0 THEN 0
        ELSE LET y == x - 1
                 wt == Wt(q[1], b[1], y \div 4) * Wt(q[2], b[2], (y \div 2) % 2)
                        * Wt(q[3], b[3], y % 2)
             IN F[x - 1] + (IF wt = 0 THEN 0
                            ELSE wt * Served(w, k, sta, ph, Flat(Corner8(b, y, w.n), w.n) + 1))
  IN F[8]
PointReject(k, w, e) ==
  CASE Len(e.out) # Len(e.ask) -> "point-count"
    [] \E q \in 1..Len(e.ask) :
         Abs(e.out[q] * 64 - Interp64(k, w, e.ask[q], e.ph, e.at)) > 200 -> "point-traveltime"
    [] OTHER -> ""

NoViews == [h \in {} |-> 0]
TStart(k) == <<>>                  \* handle h is s[h]
TReject(k, st, e) ==
  CASE e.e = "new" ->
         IF \E j \in 1..Len(e.st) : \E ph \in DOMAIN k.phases :
              \E p \in 1..Count(k.grid[e.base].n) : ~StraightOK(k, e.st[j][2], ph, p)
         THEN "oracle-not-straight" ELSE ""
    [] e.e = "look" -> LookReject(k, st[e.h], e)
    [] e.e = "serve" -> ServeReject(k, st[e.h], e)
    [] e.e = "point" -> PointReject(k, st[e.h], e)
    [] e.e = "equal" -> IF e.res # SameGrid(st[e.a], st[e.b]) THEN "equality" ELSE ""
    [] e.e = "add" -> IF e.got # SameGrid(st[e.a], st[e.b]) THEN "addition-refusal" ELSE ""
    [] e.e = "missing" -> IF e.raised THEN "" ELSE "missing-not-an-error"
    [] e.e \in {"dec", "load", "copy", "nll"} -> ""
    [] OTHER -> "unknown-event"
TStep(k, st, e) ==
  CASE e.e \in {"new", "nll"} -> Append(st, BaseView(e, k))
    [] e.e = "dec" -> IF e.h2 = e.h THEN [st EXCEPT ![e.h] = Decimated(@, e.df)]
                      ELSE Append(st, Decimated(st[e.h], e.df))
    [] e.e \in {"load", "copy"} -> Append(st, st[e.h])
    [] e.e = "add" -> IF e.got THEN Append(st, Combined(st[e.a], st[e.b])) ELSE st
    [] OTHER -> st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
