----------------------------- MODULE TravelTrace -----------------------------
(***************************************************************************)
(* "fmm"  a station and phase of a fast-marching table: the model, the grid   *)
(*        (n, h, depth of every level), the nodes nearest to the station, the  *)
(*        times, and what the fast-marching solver gives from each of these    *)
(*        nodes with the model's velocities.                                    *)
(* "nll"  a station and phase of a NonLinLoc table: what NonLinLoc was told,    *)
(*        the section it made, and the nodes' positions in it with their times.  *)
(* "left" the files in the directory before and after.                         *)
(* "refused" a request that cannot be served.                                  *)
(***************************************************************************)
EXTENDS Travel, TraceKit
VARIABLES c, l, s, v
FmmReject(k, e) ==
  LET N == {<<a, b, d>> : a \in 1..e.n[1], b \in 1..e.n[2], d \in 1..e.n[3]}
      Flat(i) == ((i[1] - 1) * e.n[2] + (i[2] - 1)) * e.n[3] + i[3]
      T == [i \in N |-> e.t[Flat(i)]]
      vel == [z \in 1..e.n[3] |-> VelAt(e.lay, e.zs[z])]
      fits(j) == \A q \in DOMAIN e.t : AbsT(e.t[q] - e.ref[j][q]) <= 1
      ok == {j \in DOMAIN e.src : fits(j)}
  IN CASE Len(e.t) # Cardinality(N) -> "table-size"
       [] ok = {} -> "not-the-front-of-the-station"
       [] ~\E j \in ok : \A i \in N : Front(T, e.n, e.h, vel, e.src[j], i) -> "eikonal"
       [] OTHER -> ""
NllReject(k, e) ==
  LET g == e.g
      nd == e.nodes
  IN CASE e.told.ph # e.ph -> "phase-told"
       [] e.told.st # e.st -> "station-told"
       [] \E a \in 1..3 : AbsT(e.told.xyz[a] - e.xyz[a]) > 1 -> "position-told"
       [] ~LayersTold(e.lay, e.told.lay, e.blocks) -> "layers-told"
       [] AbsT(e.told.dx - e.dx) > 0 -> "spacing-told"
       [] e.told.z0 > e.lo + 1 \/ e.told.z0 + (Len(g[1]) - 1) * e.dx < e.hi - 1
          \/ (Len(g) - 1) * e.dx < e.far - 1 -> "section-too-small"
       [] \E i \in DOMAIN nd : ~InSection(g, nd[i][1], nd[i][2]) -> "node-outside"
       [] \E i \in DOMAIN nd : AbsT(nd[i][3] - Interp(g, nd[i][1], nd[i][2]))
             > 2 + 2 * Steep(g, nd[i][1], nd[i][2]) -> "not-interpolated"
       [] OTHER -> ""
LeftReject(k, e) ==
  CASE ~(RangeOf(e.before) \subseteq RangeOf(e.after)) -> "files-removed"
    [] e.retain /\ ~(RangeOf(e.made) \subseteq RangeOf(e.after)) -> "grids-not-kept"
    [] ~e.retain /\ RangeOf(e.after) # RangeOf(e.before) -> "files-left"
    [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) ==
  CASE e.e = "fmm" -> FmmReject(k, e)
    [] e.e = "nll" -> NllReject(k, e)
    [] e.e = "left" -> LeftReject(k, e)
    [] e.e = "refused" -> IF e.raised \in RangeOf(e.want) \/ (e.want = <<>> /\ e.raised # "") THEN "" ELSE "not-refused"
    [] OTHER -> "unknown-event"
TStep(k, st, e) == 0
CaseAt(j) == Cases[j]
RT == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == RT!Init
TNext == RT!Next
=============================================================================
