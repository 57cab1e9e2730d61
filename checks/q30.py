"""Q30: Exported catalogues carry the located event without altering it."""
import calendar
import csv
import os
import pathlib
import random
from decimal import ROUND_HALF_EVEN, Decimal

from vlib import drv

TRACE = "ExportTrace"
DESIGN = {"quick": [("ExportMC", "ExportMC.cfg")], "thorough": [("ExportMC", "ExportMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("Runs written in the documented layout and runs really located (with picks, amplitudes, "
        "magnitudes and cut waveforms) are read with read_quakemigrate and every catalogue exported "
        "as phase, marker, station and SAC files, which are parsed independently: 0 to 4 events, "
        "without picks, without amplitudes, without measurements, runs without any located event, "
        "sub-runs, km and m, modelled and automatic picks at microseconds that need leading zeros or "
        "rounding up, numeric and missing-value-like station codes, several networks, gappy and "
        "absent components. Export.tla decides every number against the files.")
TAGS = ["km", "m", "no-events", "no-locate", "event-without-picks", "auto", "no-auto", "amps", "no-amps",
        "unmeasured", "ml-P", "no-ml", "subrun", "subrun-dots", "numeric-codes", "odd-codes", "networks", "small-us", "round-up",
        "nlloc-auto", "nlloc-modelled", "sac", "sac-component-missing", "sac-station-missing",
        "sac-late", "real", "odd-path"]
ASSUMPTIONS = ["longitude uncertainties are in degrees of a great circle",
               "no arrival falls exactly on the first sample of a SAC file",
               "the sign of a SAC file's station elevation follows the table given"]
CHUNK = 24


def jobs(tier, seed, gens):
    r = random.Random(seed * 15485863 + 30)
    n, m = (16, 3) if tier == "quick" else (240, 40)
    return ([dict(kind="real", seed=r.randrange(1 << 30)) for _ in range(m)]
            + [dict(kind="files", seed=r.randrange(1 << 30), n=10) for _ in range(n)])


def rnd(x, scale):
    return int((Decimal(str(x)) * scale).to_integral_value(ROUND_HALF_EVEN))


def opt(x, scale):
    """A number that may be absent."""
    s = str(x).strip()
    return [] if s in ("", "nan", "NaN", "None") else [rnd(s, scale)]


def length(x):
    u = rnd(x, 10 ** 6)
    return [u // 10 ** 6, u % 10 ** 6]


def DBG(x):
    if os.environ.get("VQ_DEBUG"):
        import traceback
        traceback.print_exc(file=open("/tmp/q30.err", "a"))


EPOCH = 1600000000          # times are counted from here


def at(text):
    """[second, microsecond] of an ISO time string."""
    d, t = text.rstrip("Z").split("T")
    hms, _, frac = t.partition(".")
    return [calendar.timegm(tuple(int(q) for q in d.split("-") + hms.split(":")) + (0, 0, 0)) - EPOCH,
            int((frac + "000000")[:6])]


def utc(t):
    ns = t.ns
    return [ns // 10 ** 9 - EPOCH, (ns % 10 ** 9) // 1000]


def rows(p):
    with open(p, newline="") as f:
        return list(csv.DictReader(f))


def disk_of(loc, mph):
    """The files of the located events, parsed without the code under test."""
    out = []
    kinds = [k for k in ("raw", "real", "wa") if k == "raw" or (loc / f"{k}_cut_waveforms").exists()]
    for p in sorted((loc / "events").glob("*.event")) if (loc / "events").is_dir() else []:
        e = rows(p)[0]
        i = p.name[:-len(".event")]
        pk, am = loc / "picks" / f"{i}.picks", loc / "amplitudes" / f"{i}.amps"
        f = dict(id=i, t=at(e["DT"]), lon=rnd(e["X"], 10 ** 6), lat=rnd(e["Y"], 10 ** 6), z=length(e["Z"]),
                 glon=rnd(e["GAU_X"], 10 ** 6), glat=rnd(e["GAU_Y"], 10 ** 6), gz=length(e["GAU_Z"]),
                 gex=length(e["GAU_ErrX"]), gey=length(e["GAU_ErrY"]), gez=length(e["GAU_ErrZ"]),
                 cex=length(e["COV_ErrX"]), cey=length(e["COV_ErrY"]), cez=length(e["COV_ErrZ"]),
                 coa=[rnd(e[q], 10 ** 5) for q in ("COA", "COA_NORM", "TRIG_COA", "DEC_COA", "DEC_COA_NORM")],
                 ml=opt(e.get("ML", ""), 10 ** 4), mlerr=opt(e.get("ML_Err", ""), 10 ** 4),
                 r2=opt(e.get("ML_r2", ""), 10 ** 4), hasamps=am.is_file(), picks=[], amps=[],
                 cut=[str((loc / f"{k}_cut_waveforms" / f"{i}.m").resolve()) for k in kinds])
        for q in rows(pk) if pk.is_file() else []:
            auto = q["PickTime"] != "-1"
            f["picks"].append(dict(
                sta=q["Station"], ph=q["Phase"], mt=at(q["ModelledTime"]), pt=[at(q["PickTime"])] if auto else [],
                err=opt(q["PickError"], 10 ** 6) if auto else [], snr=opt(q["SNR"], 10 ** 4) if auto else []))
        for q in rows(am) if am.is_file() else []:
            def m(ph):
                a = opt(q[f"{ph}_amp"], 10 ** 7)
                return dict(amp=a, freq=opt(q[f"{ph}_freq"], 1000), t=[at(q[f"{ph}_time"])] if a else [],
                            gain=opt(q.get(f"{ph}_filter_gain", ""), 10 ** 4),
                            avg=opt(q.get(f"{ph}_avg_amp", ""), 10 ** 7))
            f["amps"].append(dict(id=q["id"], P=m("P"), S=m("S"), noise=opt(q["Noise_amp"], 10 ** 7),
                                  picked=q["is_picked"] == "True", ml=opt(q.get("ML", ""), 10 ** 4),
                                  mlerr=opt(q.get("ML_Err", ""), 10 ** 4), epi=opt(q["epi_dist"], 1000),
                                  z=opt(q["z_dist"], 1000)))
        out.append(f)
    return out


def catalogued(ev):
    """An event of a catalogue."""
    x = lambda o, k: str(o.extra[k].value) if k in o.extra else "nan"  # noqa: E731
    org = []
    for o in ev.origins:
        c = o.origin_uncertainty.confidence_ellipsoid
        # the axis at azimuth and plunge 0 points north, the next east
        assert (c.major_axis_azimuth, c.major_axis_plunge, c.major_axis_rotation) == (0, 0, 0)
        org.append(dict(t=utc(o.time), lon=rnd(o.longitude, 10 ** 6), lat=rnd(o.latitude, 10 ** 6),
                        dep=rnd(o.depth, 1000), elon=opt(o.longitude_errors.uncertainty, 10 ** 6),
                        elat=opt(o.latitude_errors.uncertainty, 10 ** 6), edep=opt(o.depth_errors.uncertainty, 1000),
                        cov=[rnd(q, 1000) for q in (c.semi_intermediate_axis_length, c.semi_major_axis_length,
                                                    c.semi_minor_axis_length)]))
    po = ev.preferred_origin()
    amps, mags = [], []
    names = {}
    for a in ev.amplitudes:
        names[a.resource_id.id] = a
        assert a.unit == "m"
        amps.append(dict(id=a.waveform_id.get_seed_string(), ph=a.method_id.id.split("/")[-1][0],
                         amp=opt(a.generic_amplitude, 10 ** 10), noise=opt(a.generic_amplitude_errors.uncertainty, 10 ** 10),
                         per=rnd(a.period, 10 ** 6), t=utc(a.time_window.reference),
                         gain=opt(x(a, "filter_gain"), 10 ** 4), avg=opt(x(a, "avg_amp"), 10 ** 10)))
    for s in ev.station_magnitudes:
        a = names[s.amplitude_id.id]
        mags.append(dict(id=a.waveform_id.get_seed_string(), ml=opt(s.mag, 10 ** 4), err=opt(s.mag_errors.uncertainty, 10 ** 4),
                         picked=x(s, "picked") == "True", epi=opt(x(s, "epi_dist"), 1000), z=opt(x(s, "z_dist"), 1000)))
    m = ev.preferred_magnitude()
    return dict(
        id=str(ev.resource_id).split("/")[-1], origins=org,
        preferred=str(po.method_id).split("/")[-1] if po is not None else "",
        coa=[rnd(x(ev, q), 10 ** 5) for q in ("coa", "coa_norm", "trig_coa", "dec_coa", "dec_coa_norm")],
        picks=[dict(sta=p.waveform_id.station_code, ph=p.phase_hint, method=str(p.method_id).split("/")[-1],
                    t=utc(p.time), err=opt(p.time_errors.uncertainty, 10 ** 6), snr=opt(x(p, "snr"), 10 ** 4) if "extra" in p else [])
               for p in ev.picks],
        amps=amps, mags=mags, nml=len(ev.magnitudes), ml=opt(m.mag, 10 ** 4) if m else [],
        mlerr=opt(m.mag_errors.uncertainty, 10 ** 4) if m else [], r2=opt(x(m, "r2"), 10 ** 4) if m else [],
        count=m.station_count if m else 0,
        cut=[str(ev.extra[k].value) for k in ("cut_waveforms_file", "real_cut_waveforms_file", "wa_cut_waveforms_file")
             if k in ev.extra])


def digits(t):
    return [int(q) for q in t]


def nlloc_lines(p):
    out = []
    for x in pathlib.Path(p).read_text().splitlines():
        q = x.split()
        d, hm = q[6], q[7]
        s, _, frac = q[8].partition(".")
        out.append(dict(sta=q[0], ph=q[4], min=calendar.timegm((int(d[:4]), int(d[4:6]), int(d[6:8]), int(hm[:2]),
                                                                int(hm[2:]), 0, 0, 0, 0)) - EPOCH,
                        sec=int(s), frac=digits(frac), err=[rnd(q[10], 10 ** 6)],
                        pol=q[5], rest=[rnd(x, 100) for x in q[11:]]))
        assert q[9] == "GAU"
    return out


def clock(d, t):
    hms, _, frac = t.partition(".")
    return dict(s=calendar.timegm(tuple(int(q) for q in d.split("-") + hms.split(":")) + (0, 0, 0)) - EPOCH,
                frac=digits(frac))


def marker_lines(p):
    lines = pathlib.Path(p).read_text().splitlines()
    assert lines[0].startswith("# Snuffler Markers File")
    ev, out = None, []
    for x in lines[1:]:
        q = x.split()
        if q[0] == "event:":
            assert ev is None
            ev = dict(id=q[4], **clock(q[1], q[2]))
        else:
            assert q[0] == "phase:"
            out.append(dict(sta=q[4].split(".")[1], ph=q[8], **clock(q[1], q[2])))
    return ev, out


def sac_files(d, id_, waves, stream):
    import numpy as np
    from obspy.io.sac import SACTrace
    out = []
    for p in sorted(pathlib.Path(d).iterdir()) if pathlib.Path(d).is_dir() else []:
        n = p.name
        if n.endswith(".markers"):
            continue
        sta, comp = n[len(id_) + 1:].rsplit(".", 1)
        with open(p, "rb") as f:
            s = SACTrace.read(f)
        ref = s.reftime
        rel = lambda v: [] if v is None else [utc(ref + float(v))]  # noqa: E731
        same = any(t.stats.npts == len(s.data) and abs(t.stats.starttime - (ref + s.b)) < 1.1e-3
                   and np.array_equal(t.data.astype("f4"), s.data)
                   for t in stream.select(station=sta, channel="*" + comp.upper()))
        out.append(dict(sta=sta, comp=comp.upper(), data=same, S=rel(s.t0), P=rel(s.a), o=rel(s.o)[0],
                        evla=rnd(s.evla, 10 ** 6), evlo=rnd(s.evlo, 10 ** 6), evdp=rnd(s.evdp, 1000),
                        stla=rnd(s.stla, 10 ** 6), stlo=rnd(s.stlo, 10 ** 6), stel=rnd(s.stel, 1),
                        dist=rnd(s.dist, 1000), az=rnd(s.az, 1000)))
    return out


def export(case, run_dir, sub, subclean, units, mph, table, wd, r, tags):
    """Read the run and export it; adds the events to the case."""
    import pandas as pd  # noqa: F401
    from obspy import read
    from pyproj import Geod

    from quakemigrate.export.to_mfast import sac_mfast
    from quakemigrate.export.to_nlloc import nlloc_obs
    from quakemigrate.export.to_obspy import read_quakemigrate
    from quakemigrate.export.to_snuffler import snuffler_markers, snuffler_stations
    loc = pathlib.Path(run_dir) / "locate" / subclean
    case["disk"] = disk_of(loc, mph)
    geod = Geod(ellps="WGS84")
    kw = {}
    if mph != "S" or r.random() < 0.3:
        kw["local_mag_ph"] = mph
    if sub:
        kw["run_subname"] = sub
    ev = case["ev"]
    try:
        cat = read_quakemigrate(str(run_dir) if r.random() < 0.7 else pathlib.Path(run_dir), units, **kw)
        ev.append(dict(e="read", raised="", events=[catalogued(q) for q in cat]))
    except Exception as x:
        ev.append(dict(e="read", raised=(DBG(x), type(x).__name__)[1], events=[]))
        return
    out = pathlib.Path(wd) / r.choice(["out", "out", "out[1]"])
    if out.exists():
        import shutil
        shutil.rmtree(out)
    out.mkdir()
    if "[" in out.name:
        tags.add("odd-path")
    by = {f["id"]: f for f in case["disk"]}
    for q in cat:
        i = str(q.resource_id).split("/")[-1]
        f = by[i]
        for auto in (True, False):
            tags.add("nlloc-auto" if auto else "nlloc-modelled")
            e = dict(e="nlloc", id=i, auto=auto, raised="", lines=[])
            try:
                p = str(out / f"{i}.obs")
                nlloc_obs(q, p, autopick=auto)
                e["lines"] = nlloc_lines(p)
            except Exception as x:
                e["raised"] = type(x).__name__; DBG(x)
            ev.append(e)
        e = dict(e="markers", id=i, raised="", lines=[], origin=dict(id="", s=0, frac=[]))
        try:
            name = r.choice([None, "m.markers"])
            snuffler_markers(q, str(out), **({} if name is None else dict(filename=name)))
            e["origin"], e["lines"] = marker_lines(out / i / (name or f"{i}.markers"))
        except Exception as x:
            e["raised"] = type(x).__name__; DBG(x)
        ev.append(e)
        if pathlib.Path(f["cut"][0]).exists():
            tags.add("sac")
            with open(f["cut"][0], "rb") as g:
                st = read(g)
            waves = sorted({(t.stats.station, t.stats.channel[-1]) for t in st})
            u = 1000 if units == "km" else 1
            tab = []
            for _, s in table.iterrows():
                az, _, dist = geod.inv(f["lon"] / 1e6, f["lat"] / 1e6, s["Longitude"], s["Latitude"])
                tab.append(dict(sta=s["Name"], lat=rnd(s["Latitude"], 10 ** 6), lon=rnd(s["Longitude"], 10 ** 6),
                                elev=rnd(s["Elevation"], u), dist=int(round(dist)), az=int(round(az % 360 * 1000))))
            for s in table["Name"]:
                cs = {c for n, c in waves if n == s}
                tags.add("sac-station-missing" if not cs else "sac-component-missing" if len(cs) < 3 else "sac")
            e = dict(e="sac", id=i, raised="", files=[], table=tab,
                     waves=[list(x) for x in waves if x[0] in set(table["Name"])])
            try:
                sac_mfast(q, table, str(out / "sac"), units)
                e["files"] = sac_files(out / "sac" / i, i, waves, st)
            except Exception as x:
                e["raised"] = type(x).__name__; DBG(x)
            ev.append(e)
    code = r.choice([None, None, "XX"])
    tb = table
    if r.random() < 0.2:
        tb = table.drop(columns="Network")
    e = dict(e="stations", raised="", lines=[], table=[
        dict(net=code if code is not None else s.get("Network", ""), sta=s["Name"], lat=rnd(s["Latitude"], 10 ** 6),
             lon=rnd(s["Longitude"], 10 ** 6)) for _, s in tb.iterrows()])
    if "Network" in tb and len(set(tb["Network"])) > 1 and code is None:
        tags.add("networks")
    try:
        snuffler_stations(tb, str(out), "stations.txt", **({} if code is None else dict(network_code=code)))
        for x in (out / "stations.txt").read_text().splitlines():
            q = x.split()
            n, s, _ = q[0].split(".")
            e["lines"].append(dict(net=n, sta=s, lat=rnd(q[1], 10 ** 6), lon=rnd(q[2], 10 ** 6)))
    except Exception as x:
        e["raised"] = type(x).__name__; DBG(x)
    ev.append(e)


def run(job, wd):
    return (real if job["kind"] == "real" else files)(job, wd)


def table_of(r, names, f, tags):
    import pandas as pd
    nets = r.choice([["VQ"], ["VQ", "YY"], ["Z7", "VQ", "AA"]])
    k = len(names)
    t = pd.DataFrame(dict(Network=[nets[i % len(nets)] for i in range(k)], Name=names,
                          Longitude=[round(-18 + r.uniform(-.3, .3), 5) for _ in names],
                          Latitude=[round(64 + r.uniform(-.3, .3), 5) for _ in names],
                          Elevation=[round(r.uniform(-1.5, 0.2), 3) * f for _ in names]))
    if r.random() < 0.3:
        t.index = range(5, 5 + k)
    return t


def files(job, wd):
    import numpy as np
    from obspy import Stream, Trace, UTCDateTime
    r = random.Random(job["seed"])
    rng = np.random.default_rng(job["seed"])
    cases = []
    for rep in range(job["n"]):
        tags = set()
        units = r.choice(["km", "m"])
        tags.add(units)
        f = 1.0 if units == "km" else 1000.0
        kind = r.choice(["plain", "plain", "plain", "numeric", "odd"])
        if kind == "plain":
            names = r.sample(["S1", "S10", "AA", "B", "KVE", "STAT5"], r.randint(1, 4))
        elif kind == "numeric":
            names = r.choice([["1001", "1002"], ["0001", "0010", "1"], ["01", "1E5"], ["1E3", "2E3"], ["007"]])
            tags.add("numeric-codes")
        else:
            names = r.choice([["NA", "AA"], ["NULL", "B"], ["NAN", "INF"], ["TRUE", "FALSE"], ["None", "S1"]])
            tags.add("odd-codes")
        tab = table_of(r, names, f, tags)
        mph = r.choice(["S", "S", "P"])
        root = pathlib.Path(wd, f"r{rep}", r.choice(["run", "run", "run[0]"]))
        sub, subclean = r.choice([("", ""), ("", ""), ("sub", "sub"), ("v1.2", "v1_2")])
        if "[" in root.name:
            tags.add("odd-path")
        if sub:
            tags.add("subrun-dots" if "." in sub else "subrun")
        loc = root / "locate" / subclean
        root.mkdir(parents=True)
        nev = r.choice([0, 1, 1, 2, 3, 4])
        if r.random() < 0.07:
            tags.add("no-locate")
            nev = -1
        else:
            (loc / "events").mkdir(parents=True)
            if nev == 0:
                tags.add("no-events")
        for k in ("real", "wa"):
            if nev > 0 and r.random() < 0.3:
                (loc / f"{k}_cut_waveforms").mkdir(parents=True)
        withmags = r.random() < 0.7
        for j in range(max(nev, 0)):
            t0 = UTCDateTime(r.choice(["2021-02-28T23:59:58", "2020-12-31T23:59:59", "2019-10-06T07:04:09",
                                       "2021-11-11T10:59:57"])) + r.randrange(0, 4)
            us = lambda: r.choice([0, 5, 50, 500, 5000, 40000, 999960, 999999, 100000, 120000,  # noqa: E731
                                   r.randrange(10 ** 6), r.randrange(10 ** 6)])
            ot = t0 + us() * 1e-6
            uid = ot.strftime("%Y%m%d%H%M%S") + f"{j:03d}"
            L = lambda a, b: repr(round(r.uniform(a, b) * f, 3 if units == "km" else 0))  # noqa: E731
            lon, lat = -18 + r.uniform(-.2, .2), 64 + r.uniform(-.2, .2)
            glon, glat = lon + r.uniform(-.01, .01), lat + r.uniform(-.01, .01)
            e = dict(EventID=uid, DT=str(ot), X=f"{lon:.6f}", Y=f"{lat:.6f}", Z=L(-1, 25),
                     COA=f"{r.uniform(1, 900):.4g}", COA_NORM=f"{r.uniform(1, 9):.4g}", GAU_X=f"{glon:.6f}",
                     GAU_Y=f"{glat:.6f}", GAU_Z=L(-1, 25), GAU_ErrX=L(0, 9), GAU_ErrY=L(0, 9), GAU_ErrZ=L(0, 9),
                     COV_ErrX=L(0, 9), COV_ErrY=L(0, 9), COV_ErrZ=L(0, 9), COV_Err_XYZ=L(0, 20),
                     TRIG_COA=f"{r.uniform(1, 9):.4g}", DEC_COA=f"{r.uniform(1, 900):.4g}",
                     DEC_COA_NORM=f"{r.uniform(1, 9):.4g}")
            some = withmags and r.random() < 0.8
            if withmags:
                e.update(ML=f"{r.uniform(-1, 4):.3g}" if some else "", ML_Err=f"{r.uniform(0, 1):.3g}" if some and r.random() < .85 else "",
                         ML_r2=f"{r.uniform(-1, 1):.3g}" if some and r.random() < .85 else "")
                if not some:
                    tags.add("no-ml")
            else:
                tags.add("no-amps")
            put(loc / "events" / f"{uid}.event", [e])
            if r.random() < 0.12:
                tags.add("event-without-picks")
                continue
            # the arrivals
            auto = r.choice(["some", "some", "some", "none", "all"])
            ps, arr = [], {}
            seed_ids = r.random() < 0.2
            for s in names:
                a = r.uniform(0.3, 3)
                for ph, q in (("P", a), ("S", a * 1.7)):
                    if len(names) > 1 and r.random() < 0.1:
                        continue
                    mt = t0 + int(q) + us() * 1e-6
                    pt = mt + r.uniform(-.2, .2)
                    for t in (mt, pt, ot):
                        if t.microsecond < 100000:
                            tags.add("small-us")
                        if t.microsecond >= 999950:
                            tags.add("round-up")
                    has = auto == "all" or (auto == "some" and r.random() < 0.6)
                    tags.add("auto" if has else "no-auto")
                    arr[s, ph] = pt if has else mt
                    ps.append(dict(Station=s, **(dict(SEED_ids=f"VQ.{s}..HHZ") if seed_ids else {}), Phase=ph,
                                   ModelledTime=str(mt), PickTime=str(pt) if has else "-1",
                                   PickError=f"{r.uniform(.001, .3):.3g}" if has else "-1",
                                   SNR=f"{r.uniform(.5, 90):.3g}" if has else "-1",
                                   Residual=f"{pt - mt:.3g}" if has else "-1"))
            if not ps:
                tags.add("event-without-picks")
                continue
            put(loc / "picks" / f"{uid}.picks", ps)
            if withmags:
                am = []
                for s in names:
                    for c in r.sample("ZNE", r.randint(1, 3)):
                        q = dict(id=f"VQ.{s}.{r.choice(['', '00'])}.HH{c}", epi_dist=f"{r.uniform(0, 90):.5g}",
                                 z_dist=f"{r.uniform(-1, 25):.5g}")
                        for ph in "PS":
                            ok = r.random() < 0.75 and (some or ph != mph)
                            if not ok:
                                tags.add("unmeasured")
                            q.update({f"{ph}_amp": f"{10 ** r.uniform(-4, 1):.5g}" if ok else "",
                                      f"{ph}_freq": f"{r.uniform(.5, 20):.2g}" if ok else "",
                                      f"{ph}_time": str(ot + r.uniform(0, 9)) if ok else "",
                                      f"{ph}_avg_amp": f"{10 ** r.uniform(-5, 0):.5g}" if ok else "",
                                      f"{ph}_filter_gain": f"{r.uniform(.1, 1):.3g}" if ok and r.random() < .5 else ""})
                        q.update(Noise_amp=f"{10 ** r.uniform(-5, -2):.5g}" if r.random() < .9 else "",
                                 is_picked=str(r.random() < .5))
                        if some:
                            ml = q[f"{mph}_amp"] != "" and q["Noise_amp"] != ""
                            q.update(ML=f"{r.uniform(-1, 4):.3g}" if ml else "", ML_Err=f"{r.uniform(0, .5):.3g}" if ml and r.random() < .9 else "")
                        am.append(q)
                tags.add("amps")
                if mph == "P":
                    tags.add("ml-P")
                put(loc / "amplitudes" / f"{uid}.amps", am)
            if r.random() < 0.6:
                st = Stream()
                lost = r.choice(names) if len(names) > 1 and r.random() < 0.3 else None
                for s in names:
                    for c in r.choice(["ZNE", "ZNE", "ENZ", "Z12", "ZN", "ZE"]):
                        if s == lost:
                            continue
                        begin = t0 - 3 + r.choice([0, 0, 0.013])
                        if r.random() < 0.25:
                            tags.add("sac-late")
                            begin = begin + 2.5
                        st += Trace(rng.integers(-999, 999, 800).astype(np.int32), header=dict(
                            network="VQ", station=s, channel="HH" + c, sampling_rate=50, starttime=begin))
                if len(st):
                    (loc / "raw_cut_waveforms").mkdir(exist_ok=True)
                    with open(loc / "raw_cut_waveforms" / f"{uid}.m", "wb") as g:
                        st.write(g, format="MSEED")
        case = dict(key=f"{job['seed']}-{rep}", units=units, mph=mph, ev=[], note=None)
        export(case, root, sub, subclean, units, mph, tab, os.path.join(wd, f"r{rep}"), r, tags)
        case["note"] = dict(tags=sorted(tags))
        cases.append(case)
    return cases


def put(p, rows_):
    p.parent.mkdir(parents=True, exist_ok=True)
    with open(p, "w", newline="") as g:
        w = csv.DictWriter(g, list(rows_[0]))
        w.writeheader()
        w.writerows(rows_)


def real(job, wd):
    """A run made with the stages themselves."""
    import logging

    from checks._runs import Setting
    from quakemigrate.signal import QuakeScan, Trigger
    r = random.Random(job["seed"])
    drv.set_base("2021-03-01")
    logging.disable(logging.CRITICAL)
    S = Setting(wd, job["seed"])
    tags = {"real", "km"}
    a = drv.DAY0 + S.t0
    sub = r.choice(["", "x"])
    o = r.randrange(2)
    kw = dict(picker=S.pickers[o], mags=S.mags[r.randrange(3)], timestep=30.0, marginal_window=1.0,
              write_cut_waveforms=True, write_wa_waveforms=r.random() < 0.5, plot_event_summary=False, log=False)
    scan = QuakeScan(S.archs[0], S.luts[0], S.onsets[o], wd, "run", run_subname=sub, **kw)
    scan.detect(str(a), str(a + 180))
    Trigger(S.luts[0], wd, "run", trigger_name=sub, static_threshold=1.3, marginal_window=1.0, min_event_interval=4.0,
            plot_trigger_summary=False, log=False, pad=10.0).trigger(str(a), str(a + 180))
    scan.locate(starttime=str(a), endtime=str(a + 180))
    case = dict(key=f"real-{job['seed']}", units="km", mph="S", ev=[], note=None)
    tab = S.worlds[0].st
    export(case, pathlib.Path(wd) / "run", sub, sub, "km", "S", tab, wd, r, tags)
    for f in case["disk"]:
        tags.add("amps" if f["hasamps"] else "no-amps")
    case["note"] = dict(tags=sorted(tags))
    return [case]
