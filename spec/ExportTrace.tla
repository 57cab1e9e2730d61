---------------------------- MODULE ExportTrace ----------------------------
(***************************************************************************)
(* k: units, mph (phase magnitudes were made from); disk: the files of the   *)
(* run, by event.                                                            *)
(* "read": the events of the catalogue, as they were found there.            *)
(* "nlloc", "markers", "stations", "sac": what exported files say.            *)
(***************************************************************************)
EXTENDS Export, TraceKit
VARIABLES c, l, s, v

Near(a, b, tol) == \/ a = <<>> /\ b = <<>>
                   \/ a # <<>> /\ b # <<>> /\ Within(a[1], b[1], tol)
SameTime(a, b) == Abs((a[1] - b[1]) * 1000000 + a[2] - b[2]) <= 1
NearTime(a, b, us) == Within(a[1], b[1], 2) /\ Abs((a[1] - b[1]) * 1000000 + a[2] - b[2]) <= us
Same(a, b, Eq(_, _)) == /\ Len(a) = Len(b)
                        /\ \A i \in DOMAIN a : Cardinality({j \in DOMAIN a : Eq(a[j], a[i])})
                                             = Cardinality({j \in DOMAIN b : Eq(a[i], b[j])})
EqPick(p, q) == /\ p.sta = q.sta /\ p.ph = q.ph /\ p.method = q.method
                /\ SameTime(p.t, q.t) /\ Near(p.err, q.err, 1) /\ Near(p.snr, q.snr, 1)

OriginReject(f, o, units) ==
  CASE ~SameTime(o.t, f.t) -> "origin-time"
    [] ~Within(o.lon, f.lon, 1) \/ ~Within(o.lat, f.lat, 1) -> "epicentre"
    [] ~Within(o.dep, Millimetres(f.z, units), 1) -> "depth"
    [] ~Near(o.elon, <<MicroDegrees(Millimetres(f.gex, units))>>, 3 + o.lat \div 20000000) -> "longitude-uncertainty"
    [] ~Near(o.elat, <<MicroDegrees(Millimetres(f.gey, units))>>, 3) -> "latitude-uncertainty"
    [] ~Near(o.edep, <<Millimetres(f.gez, units)>>, 1) -> "depth-uncertainty"
    [] ~(/\ Within(o.cov[1], Millimetres(f.cex, units), 1)
         /\ Within(o.cov[2], Millimetres(f.cey, units), 1)
         /\ Within(o.cov[3], Millimetres(f.cez, units), 1)) -> "ellipsoid"
    [] OTHER -> ""

AmpReject(a, x) ==
  LET m == a.m
  IN CASE ~Near(x.amp, m.amp, 1) -> "amplitude"
       [] ~Near(x.noise, a.noise, 1) -> "noise"
       [] ~(m.freq = <<>> \/ Abs(x.per * m.freq[1] - 1000000000) <= 2 * m.freq[1] + 2) -> "period"
       [] ~SameTime(x.t, m.t[1]) -> "amplitude-time"
       [] ~Near(x.gain, m.gain, 1) -> "filter-gain"
       [] ~Near(x.avg, m.avg, 1) -> "average-amplitude"
       [] OTHER -> ""
MagReject(m, x) ==
  CASE ~Near(x.ml, m.ml, 1) -> "station-magnitude"
    [] ~Near(x.err, m.err, 1) -> "station-magnitude-error"
    [] x.picked # m.picked -> "picked"
    [] ~Near(x.epi, m.epi, 1) \/ ~Near(x.z, m.z, 1) -> "distances"
    [] OTHER -> ""
(* the amplitudes of a component and phase are unique within an event *)
AmpsReject(want, got) ==
  LET at(a) == {j \in DOMAIN got : got[j].id = a.id /\ got[j].ph = a.ph}
      bad(a) == AmpReject(a, got[CHOOSE j \in at(a) : TRUE])
  IN CASE Len(want) # Len(got) \/ (\E i \in DOMAIN want : Cardinality(at(want[i])) # 1) -> "amplitudes"
       [] \E i \in DOMAIN want : bad(want[i]) # "" ->
            bad(want[CHOOSE i \in DOMAIN want : bad(want[i]) # ""])
       [] OTHER -> ""
MagsReject(want, got) ==
  LET at(a) == {j \in DOMAIN got : got[j].id = a.id}
      bad(a) == MagReject(a, got[CHOOSE j \in at(a) : TRUE])
  IN CASE Len(want) # Len(got) \/ (\E i \in DOMAIN want : Cardinality(at(want[i])) # 1) -> "station-magnitudes"
       [] \E i \in DOMAIN want : bad(want[i]) # "" ->
            bad(want[CHOOSE i \in DOMAIN want : bad(want[i]) # ""])
       [] OTHER -> ""

EventReject(f, g, k) ==
  LET sp == [t |-> f.t, lon |-> f.lon, lat |-> f.lat, z |-> f.z, gex |-> f.gex, gey |-> f.gey,
             gez |-> f.gez, cex |-> f.cex, cey |-> f.cey, cez |-> f.cez]
      ga == [sp EXCEPT !.lon = f.glon, !.lat = f.glat, !.z = f.gz]
      amps == AmpsOf(f.amps, 1)
      mags == MagsOf(f.amps, k.mph)
  IN CASE g.preferred # "spline" -> "preferred-origin"
       [] Len(g.origins) # 2 -> "origins"
       [] OriginReject(sp, g.origins[1], k.units) # "" -> OriginReject(sp, g.origins[1], k.units)
       [] OriginReject(ga, g.origins[2], k.units) # "" -> "gaussian-" \o OriginReject(ga, g.origins[2], k.units)
       [] g.coa # f.coa -> "coalescence"
       [] ~Same(PicksOf(f.picks), g.picks, EqPick) -> "picks"
       [] AmpsReject(amps, g.amps) # "" -> AmpsReject(amps, g.amps)
       [] MagsReject(mags, g.mags) # "" -> MagsReject(mags, g.mags)
       [] (~f.hasamps \/ f.ml = <<>>) /\ (g.ml # <<>> \/ g.nml # 0) -> "magnitude-from-nowhere"
       [] f.hasamps /\ f.ml # <<>> /\ ~(g.nml = 1 /\ Near(g.ml, f.ml, 1) /\ Near(g.mlerr, f.mlerr, 1)
                         /\ Near(g.r2, f.r2, 1) /\ g.count = Len(mags)) -> "magnitude"
       [] g.cut # f.cut -> "waveform-files"
       [] OTHER -> ""

IdOf(k, id) == CHOOSE i \in DOMAIN k.disk : k.disk[i].id = id
ReadReject(k, e) ==
  LET want == {k.disk[i].id : i \in Catalogued(k.disk)}
      got == {e.events[i].id : i \in DOMAIN e.events}
      bad(g) == EventReject(k.disk[IdOf(k, g.id)], g, k)
  IN CASE e.raised # "" -> "raised-" \o e.raised
       [] ~NoDup([i \in DOMAIN e.events |-> e.events[i].id]) -> "event-twice"
       [] want \ got # {} -> "event-missing"
       [] got \ want # {} -> "event-invented"
       [] \E i \in DOMAIN e.events : bad(e.events[i]) # "" ->
            bad(e.events[CHOOSE i \in DOMAIN e.events : bad(e.events[i]) # ""])
       [] OTHER -> ""

Method(auto) == IF auto THEN "autopick" ELSE "modelled"
NllocReject(k, e) ==
  LET all == PicksOf(k.disk[IdOf(k, e.id)].picks)
      want == SelectSeq(all, LAMBDA p : p.method = Method(e.auto))
      eq(p, x) == /\ p.sta = x.sta /\ p.ph = x.ph
                  /\ SamePhaseTime(x.min, x.sec, x.frac, p.t, 6)
                  /\ IF p.err = <<>> \/ p.err = <<0>> THEN x.err[1] < 0
                     ELSE Abs(x.err[1] - p.err[1]) <= 1 + p.err[1] \div 190
  IN CASE e.raised # "" -> "raised-" \o e.raised
       [] Len(want) # Len(e.lines) -> "phase-lines"
       [] \E i \in DOMAIN want : Cardinality({j \in DOMAIN e.lines : eq(want[i], e.lines[j])})
              < Cardinality({j \in DOMAIN want : want[j] = want[i]}) -> "phase-line"
       \* what the event does not have is exported as missing, with the neutral weight
       [] \E j \in DOMAIN e.lines : e.lines[j].pol # "?" \/ e.lines[j].rest # <<-100, -100, -100, 100>>
            -> "invented-value"
       [] OTHER -> ""
MarkReject(k, e) ==
  LET f == k.disk[IdOf(k, e.id)]
      want == PicksOf(f.picks)
      eq(p, x) == /\ p.sta = x.sta /\ p.ph = x.ph
                  /\ SameTime(p.t, <<x.s, Fraction(x.frac, 6)>>)
  IN CASE e.raised # "" -> "raised-" \o e.raised
       [] ~SameTime(f.t, <<e.origin.s, Fraction(e.origin.frac, 6)>>) -> "marked-origin-time"
       [] e.origin.id # e.id -> "marked-event"
       [] Len(want) # Len(e.lines) -> "markers"
       [] \E i \in DOMAIN want : Cardinality({j \in DOMAIN e.lines : eq(want[i], e.lines[j])})
              < Cardinality({j \in DOMAIN want : want[j] = want[i]}) -> "marker"
       [] OTHER -> ""
StaReject(k, e) ==
  CASE e.raised # "" -> "raised-" \o e.raised
    [] Len(e.table) # Len(e.lines) -> "station-lines"
    [] \E i \in DOMAIN e.table : e.table[i] # e.lines[i] -> "station-line"
    [] OTHER -> ""
SacReject(k, e) ==
  LET f == k.disk[IdOf(k, e.id)]
      must == Filed(f.picks, RangeOf(e.waves))
      got == {<<e.files[i].sta, e.files[i].comp>> : i \in DOMAIN e.files}
      where(sta) == e.table[CHOOSE i \in DOMAIN e.table : e.table[i].sta = sta]
      near(sta, ph, t) == \E g \in Given(f.picks, sta, ph) : NearTime(g, t, 1100)
      bad(x) ==
        LET w == where(x.sta)
        IN CASE ~x.data -> "sac-data"
             [] ~near(x.sta, "S", x.S[1]) -> "sac-S"
             [] (Given(f.picks, x.sta, "P") = {}) # (x.P = <<>>) -> "sac-P"
             [] x.P # <<>> /\ ~near(x.sta, "P", x.P[1]) -> "sac-P"
             [] ~NearTime(f.t, x.o, 1100) -> "sac-origin-time"
             [] ~(Within(x.evla, f.lat, 20) /\ Within(x.evlo, f.lon, 20)) -> "sac-epicentre"
             [] ~Within(x.evdp, Millimetres(f.z, k.units) \div 1000, 2) -> "sac-depth"
             [] ~(Within(x.stla, w.lat, 20) /\ Within(x.stlo, w.lon, 20)) -> "sac-station"
             [] ~Within(Abs(x.stel), Abs(w.elev), 2) -> "sac-elevation"
             [] ~Within(x.dist, w.dist, 2 + w.dist \div 1000000) -> "sac-distance"
             [] ~(Within(x.az, w.az, 10) \/ Within(Abs(x.az - w.az), 360000, 10) \/ w.dist < 100) -> "sac-azimuth"
             [] OTHER -> ""
  IN CASE e.raised # "" -> "raised-" \o e.raised
       [] must \ got # {} -> "sac-missing"
       [] got \ must # {} -> "sac-invented"
       [] \E i \in DOMAIN e.files : bad(e.files[i]) # "" ->
            bad(e.files[CHOOSE i \in DOMAIN e.files : bad(e.files[i]) # ""])
       [] OTHER -> ""
TStart(k) == 0
TReject(k, st, e) == CASE e.e = "read" -> ReadReject(k, e)
                       [] e.e = "nlloc" -> NllocReject(k, e)
                       [] e.e = "markers" -> MarkReject(k, e)
                       [] e.e = "stations" -> StaReject(k, e)
                       [] e.e = "sac" -> SacReject(k, e)
                       [] OTHER -> "unknown-event"
TStep(k, st, e) == st
CaseAt(j) == Cases[j]
R == INSTANCE TraceRun WITH N <- Len(Cases), CaseOf <- CaseAt,
       Start <- TStart, Reject <- TReject, Step <- TStep
TInit == R!Init
TNext == R!Next
=============================================================================
