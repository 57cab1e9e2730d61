"""Q36: A well-recorded event is found, located at its source and timed at its origin."""
import os
import pathlib
import random
import shutil

import numpy as np

from vlib import drv

TRACE = "SourceTrace"
DESIGN = {"quick": [("SourceMC", "SourceMC.cfg")], "thorough": [("SourceMC", "SourceMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("detect, trigger and locate on sources at known places and times between the nodes: networks of "
        "6-10 stations, kilometre and metre grids, unequal spacing, coarse and fine grids, missing "
        "station-phases, several events, spans over midnight; on onset functions that peak at the "
        "arrivals and on waveforms with a burst at every arrival. Every stage finds every source once, "
        "at its place and time; the Gaussian location and its errors, the modelled and the picked "
        "arrivals agree with the source.")
TAGS = ("coarse", "fine", "waveforms", "km", "m", "unequal-spacing", "partial", "several", "one",
        "midnight")
ASSUMPTIONS = ["stations surround the source and their phases are recorded with little noise",
               "sources are more than three nodes from the grid's edges and seven marginal windows apart",
               "the Gaussian fit is expected to be within 0.6 nodes (3.2 in depth) only where the map's mean "
               "is below all values near the peak"]
CHUNK = 20
JOB_LIMIT_S = 300


def jobs(tier, seed, gens):
    r = random.Random(seed * 7368787 + 36)
    return [dict(seed=r.randrange(1 << 30), kind=("coarse", "fine", "waveforms")[k % 3])
            for k in range(60 if tier == "quick" else 480)] + [dict(seed=412304006, kind="waveforms", known=1)]


def net(r, kind, tags):
    """A grid and stations around it."""
    import pandas as pd
    from pyproj import Transformer
    from checks._world import World, geometry
    units = r.choice(["km", "km", "m"])
    tags.add(units)
    f = 1.0 if units == "km" else 1000.0
    n = [r.choice([18, 20, 22, 24] if kind == "fine" else [8, 9, 10, 11]) for _ in range(3)]
    h = [r.choice([0.5, 1.0] if kind == "waveforms" else [0.5, 1.0, 2.0])] * 3
    if r.random() < 0.3:
        tags.add("unequal-spacing")
        h = [h[0] * x for x in r.sample([0.7, 1.0, 1.2], 3)]
    spec = drv.grid_spec(units, [2, 2, 2], 1.0)
    inv = Transformer.from_proj(spec["grid_proj"], spec["coord_proj"])
    L = [(n[i] - 1) * h[i] * f for i in range(3)]
    spec["ll_corner"] = inv.transform(0.0, 0.0, 0.0)
    spec["ur_corner"] = inv.transform(*[(n[i] - 1 - 1e-6) * h[i] * f for i in range(3)])
    spec["node_spacing"] = [x * f for x in h]
    k = r.choice([6, 8, 10])
    rows = []
    for i in range(k):
        a = 2 * np.pi * (i + r.random() * 0.6) / k
        q = r.choice([0.3, 0.5, 0.7, 0.8])
        lon, lat, z = inv.transform(L[0] * (0.5 + q * np.cos(a)), L[1] * (0.5 + q * np.sin(a)),
                                    -f * r.choice([0.0, 0.1, 0.5]))  # z is depth
        rows.append(dict(Network="VQ", Name=f"S{i}", Longitude=lon, Latitude=lat, Elevation=z))
    st = pd.DataFrame(rows)
    from quakemigrate.lut import compute_traveltimes
    w = World.__new__(World)
    w.units, w.ucf, w.names, w.phases = units, 1000 if units == "km" else 1, list(st["Name"]), ["P", "S"]
    w.sr = r.choice([50, 100])
    w.spec, w.st, w.h, w.f = spec, st, h, f
    vp = r.choice([4.0, 6.0]) * f
    vs = vp / 1.73
    w.v = {"P": vp, "S": vs}
    w.n, w.nodes, w.tt = geometry(spec, st, vp, vs, w.phases)
    assert tuple(w.n) == tuple(n), (w.n, n)
    w.lut = compute_traveltimes(spec, st, method="homogeneous", phases=w.phases, vp=vp, vs=vs)
    w.cols = [f"{s}_{p}" for s in w.names for p in w.phases]
    fwd = Transformer.from_proj(spec["coord_proj"], spec["grid_proj"])
    w.sta = [np.array(fwd.transform(s["Longitude"], s["Latitude"], s["Elevation"])) for _, s in st.iterrows()]
    w.fwd = fwd
    return w


def world_onset(w, src, sig, A, seed, noise):
    """Onset functions that rise around every arrival, on a floor of one."""
    rng = np.random.default_rng(seed)
    nz = {c: np.abs(rng.normal(0, noise, 200 * w.sr)) for c in w.cols}

    def value(col, a, b):
        k = np.arange(a, b + 1)
        y = 1 + nz[col][k % (200 * w.sr)]
        for s in src:
            y = y + A * np.exp(-0.5 * ((k / w.sr - s["arr"][col]) / sig[col[-1]]) ** 2)
        return np.log(y)
    return value


def waveforms(w, src, begin, length, sr, seed, d):
    """Day files of an archive with a burst at every arrival: P vertical, S horizontal."""
    from obspy import Stream, Trace
    rng = np.random.default_rng(seed)
    for s in w.names:
        for c in "ZNE":
            y = rng.normal(0, 10, length * sr)
            for e in src:
                i = int(round((e["arr"][f"{s}_{'P' if c == 'Z' else 'S'}"] - begin) * sr))
                m = int(0.5 * sr)
                if 0 <= i < len(y) - m:
                    y[i:i + m] += 3000 * np.exp(-np.arange(m) / (0.12 * sr)) * rng.choice([-1, 1], m)
            tr = Trace(y.astype(np.int32), header=dict(network="VQ", station=s, channel="HH" + c,
                                                      sampling_rate=sr, starttime=drv.DAY0 + begin))
            for k in (0, 1):
                u = drv.DAY0 + 86400 * k
                x = tr.slice(u, u + 86400 - 1 / sr)
                if x.stats.npts:
                    p = pathlib.Path(d) / f"{u.year}" / f"{u.julday:03d}" / f"VQ_{s}_HH{c}.m"
                    p.parent.mkdir(parents=True, exist_ok=True)
                    Stream([x]).write(str(p), format="MSEED")


def run(job, wd):
    from obspy import UTCDateTime
    from checks._world import Archive, onset_class, read_files
    from quakemigrate.signal import QuakeScan, Trigger
    from quakemigrate.signal.pickers import GaussianPicker
    r = random.Random(job["seed"])
    drv.set_base(r.choice(["2021-03-01", "2019-12-31", "2020-02-28"]))
    tags = set()
    real = job["kind"] == "waveforms"
    tags.add(job["kind"])
    w = net(r, job["kind"], tags)
    sr, h = w.sr, max(w.h)
    slow = h * w.f / w.v["S"]
    fwd = w.fwd
    org = np.array(fwd.transform(*w.spec["ll_corner"]))
    sig = {p: r.choice([2.0, 2.5] if job["kind"] == "fine" else [1.0, 1.5, 2.0]) * slow for p in "PS"}
    A = r.choice([5.0, 10.0, 30.0])
    mw = round((max(0.2, 2.5 * max(sig.values())) if not real else 1.0) * sr) / sr
    step = max(18.0, 7 * mw)
    t0 = r.choice([43200, 86400 - int(step)])
    edge = 7 if job["kind"] == "fine" else 3.2
    src = []
    for k in range(r.choice([1, 2, 3])):
        x = [r.uniform(edge, m - 1 - edge) for m in w.n]
        t = t0 + 0.6 * step + step * k + r.random() * 0.3 * step
        xyz = org + np.array(x) * np.array(w.h) * w.f
        arr = {f"{s}_{p}": float(t + np.sqrt(((xyz - q) ** 2).sum()) / w.v[p])
               for s, q in zip(w.names, w.sta) for p in "PS"}
        src.append(dict(t=t, x=x, arr=arr))
    end = t0 + int(step * (len(src) + 0.6))
    if t0 < 86400 < end:
        tags.add("midnight")
    tags.add("several" if len(src) > 1 else "one")
    # waveforms and onset functions of some station-phases are missing
    rd = os.path.join(wd, "r")
    av = list(w.cols)
    if not real and r.random() < 0.4:
        av = sorted(r.sample(w.cols, len(w.cols) - r.choice([1, 2])), key=w.cols.index)
        tags.add("partial")
    kw = dict(log=False, marginal_window=mw, threads=1, plot_event_summary=False,
              timestep=r.choice([9.5, 25, 40]), scan_rate=sr)
    if real:
        from quakemigrate.io.data import Archive as Real
        from quakemigrate.signal.onsets import STALTAOnset
        waveforms(w, src, t0 - 60, end - t0 + 120, 100, job["seed"], os.path.join(wd, "a"))
        ons = STALTAOnset(sampling_rate=sr, position="centred", phases=["P", "S"],
                          bandpass_filters={"P": [2, 16, 2], "S": [2, 14, 2]},
                          sta_lta_windows={"P": [0.2, 1.0], "S": [0.2, 1.0]})
        arch = Real(os.path.join(wd, "a"), w.st, archive_format="YEAR/JD/*_STATION_*")
    else:
        ons = onset_class()(w, world_onset(w, src, sig, A, job["seed"], 0.002 * A), lambda a, b: av,
                            w.cols, pre=0.5)
        arch = Archive(w, lambda *a: None)
    scan = QuakeScan(arch, w.lut, ons, rd, "run", picker=GaussianPicker(onset=ons, plot_picks=False), **kw)
    span = [str(drv.DAY0 + t0), str(drv.DAY0 + end)]
    scan.detect(*span)
    Trigger(w.lut, rd, "run", static_threshold=20.0 if real else 0.5 * (1 + A), marginal_window=mw,
            min_event_interval=max(0.3 * step, 2 * mw), plot_trigger_summary=False).trigger(*span)
    scan.locate(*span)

    def place(d, keys):
        v = (np.array(fwd.transform(*(float(d[q]) for q in keys))) - org) / np.array(w.h) / w.f
        return [int(round(100 * a)) if np.isfinite(a) and abs(a) < 1e5 else 10 ** 7 for a in v]

    def tm(t):
        return int(round((t - t0) * 1e4))
    ev = []
    # detect: the largest coalescence near every source
    recs = [(f["first"] + j, {k: int(f["data"][k][j]) for k in f["data"]})
            for f in read_files(os.path.join(rd, "run"), sr)[0] for j in range(f["cnt"])]
    for i, s in enumerate(src):
        near = [(q["COA"], -abs(k / sr - s["t"]), k, q) for k, q in recs if abs(k / sr - s["t"]) < mw]
        if near:
            _, _, k, q = max(near, key=lambda x: x[:2])
            ev.append(dict(e="found", stage="detect", t=tm(k / sr), coa=int(q["COA"] // 100),
                           pos=place(dict(x=q["X"] / 1e6, y=q["Y"] / 1e6, z=q["Z"] / (1e6 if w.units == "km" else 1e3)), "xyz")))
    for p in sorted(pathlib.Path(rd).rglob("*_TriggeredEvents.csv")):
        for d in drv.rows_of(p)[1]:
            ev.append(dict(e="found", stage="trigger", t=tm(UTCDateTime(d["CoaTime"]) - drv.DAY0),
                           coa=int(round(1000 * float(d["TRIG_COA"]))),
                           pos=place(d, ["COA_X", "COA_Y", "COA_Z"])))
    for p in sorted(pathlib.Path(rd).rglob("*.event")):
        d = drv.rows_of(p)[1][0]
        t = tm(UTCDateTime(d["DT"]) - drv.DAY0)
        ev.append(dict(e="found", stage="locate", t=t, coa=int(round(1000 * float(d["COA"]))),
                       pos=place(d, "XYZ")))
        ev.append(dict(e="gauss", t=t, pos=place(d, ["GAU_X", "GAU_Y", "GAU_Z"]),
                       gau=[int(round(100 * float(d[f"GAU_Err{c}"]) / w.h[k] / w.f)) for k, c in enumerate("XYZ")],
                       cov=[int(round(100 * float(d[f"COV_Err{c}"]) / w.h[k] / w.f)) for k, c in enumerate("XYZ")]))
        pk = []
        for f in sorted(pathlib.Path(rd).rglob(f"{p.stem}*.picks")):
            for q in drv.rows_of(f)[1]:
                got = q["PickTime"] != "-1"
                pk.append(dict(c=w.cols.index(f"{q['Station']}_{q['Phase']}") + 1,
                               model=tm(UTCDateTime(q["ModelledTime"]) - drv.DAY0), got=got,
                               pick=tm(UTCDateTime(q["PickTime"]) - drv.DAY0) if got else 0,
                               err=int(round(1e4 * float(q["PickError"]))) if got else 0))
        ev.append(dict(e="picks", t=t, pk=pk))
    ev.append(dict(e="end"))
    if os.environ.get("SRCLOG"):
        with open(os.environ["SRCLOG"], "a") as f:
            f.write(f"{job['seed']} {job['kind']} {w.units} n{list(map(int,w.n))} h{w.h} A{A} k{len(w.names)} {w.v} mw{mw} sig{sig} slow{slow:.3f} src{[round(s['t']-t0,3) for s in src]} \n")
            for o in ev:
                i = min(range(len(src)), key=lambda k: abs((src[k]["t"] - t0) * 1e4 - o.get("t", 0)))
                s = src[i]
                o = dict(o)
                if "t" in o: o["t"] -= tm(s["t"])
                if "pos" in o: o["pos"] = [o["pos"][k] - round(100 * s["x"][k]) for k in range(3)]
                if "pk" in o: o["pk"] = [(x["model"] - tm(s["arr"][w.cols[x["c"]-1]]), x["pick"] - tm(s["arr"][w.cols[x["c"]-1]]) if x["got"] else None, x["err"]) for x in o["pk"]]
                f.write("   " + str(o) + "\n")
    shutil.rmtree(rd, ignore_errors=True)
    return [dict(
        key="gaussian-depth" if job.get("known") else f"{job['kind']}-{job['seed']}",
        module="SourceTrace", kind=job["kind"], deep=job["kind"] != "waveforms" or bool(job.get("known")),
        src=[dict(t=tm(s["t"]), x=[int(round(100 * v)) for v in s["x"]],
                  arr=[tm(s["arr"][c]) for c in w.cols]) for s in src],
        av=[w.cols.index(c) + 1 for c in av], ncol=len(w.cols),
        ph=[1 if c[-1] == "P" else 2 for c in w.cols],
        slow=int(round(slow * 1e4)), smp=10000 // sr, mw=int(round(mw * 1e4)),
        sig=[int(round(sig[p] * 1e4)) for p in "PS"], peak=int(round(1000 * (1 + A))),
        ev=ev, note=dict(tags=sorted(tags)))]
