"""Q35: Figures are made for every result, show it and change nothing."""
import csv
import fnmatch
import hashlib
import json
import logging
import os
import pathlib
import random

import numpy as np

from vlib import drv

TRACE = "FiguresTrace"
DESIGN = {"quick": [("FiguresMC", "FiguresMC.cfg")], "thorough": [("FiguresMC", "FiguresMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("detect, trigger and locate on synthetic waveforms with all figures, and once more without: "
        "P and S, P only, S only; stations without some components, with gaps, dead, or all of them "
        "missing for a while; components named ZNE and Z12; kilometre and metre grids; spans within "
        "a day and over midnight; three threshold methods, regions, no events; with and without "
        "magnitudes and availability files. What is on every figure is read off it when it is "
        "saved and compared with the files of the run and independent traveltimes.")
TAGS = ("P-only", "S-only", "P-and-S", "m", "midnight", "region", "discarded", "no-events", "gaps",
        "dead", "one-component", "numbers", "no-availability", "used-stations", "magnitudes",
        "picked", "not-picked", "drawn", "unequal-phases", "own-channels", "several-events", "outlines")
ASSUMPTIONS = ["matplotlib draws what its figure contains", "the archive's stations are in the lookup table",
               "events discarded for their time may or may not be shown beside those outside the region"]
CHUNK = 20
JOB_LIMIT_S = 300


def jobs(tier, seed, gens):
    r = random.Random(seed * 7368787 + 35)
    return [dict(seed=r.randrange(1 << 30), drawn=k % 6 == 0) for k in range(64 if tier == "quick" else 480)]


def make(r, rng, wd, tags):
    """A world and its archive of some minutes of waveforms."""
    from checks._world import World
    from checks.q27 import inventory, response
    from obspy import Trace
    units = r.choice(["km", "km", "m"])
    phases = r.choice([["P", "S"], ["P", "S"], ["S", "P"], ["P"], ["S"]])
    tags.add("P-and-S" if len(phases) == 2 else f"{phases[0]}-only")
    if units == "m":
        tags.add("m")
    names = r.sample(["S1", "S2", "ABC", "D", "E5"], r.choice([1, 2, 3, 4]))
    n = [r.choice([2, 3, 4, 5]) for _ in range(3)]
    w = World(names, n=n, spacing=r.choice([1.0, 2.0]), units=units,
              phases=["P", "S"], sr=20)
    w.used = phases
    t0 = r.choice([43200, 86400 - 60])
    if t0 > 80000:
        tags.add("midnight")
    sr, begin, N = 40, t0 - 60, 240 * 40
    both = ["P", "S"]
    from checks._world import geometry
    _, _, tt = geometry(w.spec, w.st, 5.0 * (1 if units == "km" else 1000),
                        3.0 * (1 if units == "km" else 1000), both)
    comps = {}
    for s in names:
        c = r.choice(["ZNE", "ZNE", "ZNE", "Z12", "Z12", "Z", "NE", "ZN"])
        comps[s] = c
        if c == "Z12":
            tags.add("numbers")
        if len(c) < 3:
            tags.add("one-component")
    data = {(s, c): rng.normal(0, 30, N) for s in names for c in comps[s]}
    for k in range(r.choice([1, 2, 3])):
        at = 60 + 10 + 30 * k + r.random() * 12
        node = r.randrange(len(w.nodes))
        for (s, c), y in data.items():
            p, amp = ("P", 900) if c == "Z" else ("S", 1500)
            i = int((at + tt[f"{s}_{p}"][node]) * sr)
            m = int(0.6 * sr)
            y[i:i + m] += amp * np.exp(-np.arange(m) / (0.15 * sr)) * rng.normal(0, 1, m)
    if r.random() < 0.25:
        tags.add("dead")
        for c in comps[names[0]]:
            data[names[0], c][:] = 0
    holes = []
    if r.random() < 0.4:
        tags.add("gaps")
        s = r.choice(names)
        holes = [((s, c), r.randrange(60, 120)) for c in r.choice([comps[s], comps[s][:1]])]
    if r.random() < 0.15:
        tags.add("gaps")
        holes = [((s, c), 100) for s in names for c in comps[s]]
    chans = {}
    d = pathlib.Path(wd, "archive")
    for (s, c), y in data.items():
        tr = Trace(y.astype(np.int32), header=dict(network="VQ", station=s, channel="HH" + c,
                                                  sampling_rate=sr, starttime=drv.DAY0 + begin))
        chans[tr.id] = (response(r), None)
        parts = [tr]
        for key, a in holes:
            if key == (s, c):
                u = drv.DAY0 + begin + a
                parts = [tr.slice(endtime=u), tr.slice(starttime=u + 7)]
        for k in (0, 1):
            u = drv.DAY0 + 86400 * k
            from obspy import Stream
            st = Stream([x.slice(u, u + 86400 - 1 / sr) for x in parts])
            st.traces = [x for x in st if x.stats.npts]
            if len(st):
                p = d / f"{u.year}" / f"{u.julday:03d}" / f"VQ_{s}_HH{c}.m"
                p.parent.mkdir(parents=True, exist_ok=True)
                st.write(str(p), format="MSEED")
    return w, d, t0, inventory(chans), comps


def dates(ax):
    a, b = ax.get_xlim()
    return 15000 < a < 25000


def dimension(lims, box):
    """0, 1, 2: longitude, latitude, depth, by what the axis spans."""
    a, b = sorted(map(float, lims))
    return int(np.argmin([abs(a - p) + abs(b - q) for p, q in box]))


def extract(fig, day0, box):
    """What the figure shows."""
    from matplotlib.collections import PathCollection, QuadMesh
    from matplotlib.patches import Ellipse
    out = []
    for ax in fig.axes:
        X = (lambda x: (np.asarray(x, float) - day0) * 86400.0) if dates(ax) else (
            lambda x: np.asarray(x, float))
        e = dict(date=bool(dates(ax)), v=[], h=[], line=[], pts=[], mesh=[], span=[],
                 ell=[], texts=[t.get_text() for t in ax.texts] + [ax.get_title(), ax.get_ylabel()])
        for ln in ax.lines:
            x, y = np.asarray(ln.get_xdata(orig=False), float), np.asarray(ln.get_ydata(orig=False), float)
            if len(x) == 2 and x[0] == x[1] and list(y) == [0, 1]:
                e["v"].append(float(X(x[0])))
            elif len(x) == 2 and y[0] == y[1] and list(x) == [0, 1]:
                e["h"].append(float(y[0]))
            else:
                e["line"].append((X(x), y))
        for c in ax.collections:
            if isinstance(c, PathCollection):
                o = np.asarray(c.get_offsets(), float).reshape(-1, 2)
                e["pts"].append((X(o[:, 0]), o[:, 1]))
            elif isinstance(c, QuadMesh):
                q = np.asarray(c.get_coordinates(), float)
                mid = (q[1:, 1:] + q[:-1, :-1]) / 2
                e["mesh"].append((mid.reshape(-1, 2), np.ma.filled(np.ma.masked_invalid(
                    c.get_array()), -1).ravel(), c.norm))
        for p in ax.patches:
            if isinstance(p, Ellipse):
                e["ell"].append((*p.get_center(), p.get_width(), p.get_height()))
            else:
                v = p.get_patch_transform().transform(p.get_path().vertices)
                e["span"].append((float(X(v[:, 0].min())), float(X(v[:, 0].max()))))
        e["dims"] = [dimension(ax.get_xlim(), box), dimension(ax.get_ylim(), box)]
        e["rows"] = {round(float(y), 3): t.get_text() for y, t in zip(ax.get_yticks(), ax.get_yticklabels())}
        out.append(e)
    return out


def i3(x):
    return int(round(float(x) * 1000))


def ms(t):
    return int(round((t - drv.DAY0) * 1000))


def lg(x):
    return int(round(float(np.log10(x)) * 1e4)) if x > 0 else -999999


def numbers(t):
    """The magnitude and its uncertainty, as printed; None if they are not numbers."""
    a = [float(v) for v in t.replace("\u00b1", " ").split()[:2]]
    return a if not np.isnan(a).all() else None


def big(x):
    return int(round(max(-1e9, min(1e9, x)))) if np.isfinite(x) else 0


def paths(ax, f1, f2):
    """Lines on a map or section."""
    return [[[big(px * f1), big(py * f2)] for px, py in zip(lx, ly)] for lx, ly in ax["line"]] \
        if not ax["date"] and len(ax["line"]) < 20 else []


def ellipse(w, x, F):
    """Where the ellipse of an event is and what it spans along each axis, by projecting it anew."""
    from pyproj import Transformer
    fwd = Transformer.from_proj(w.spec["coord_proj"], w.spec["grid_proj"])
    inv = Transformer.from_proj(w.spec["grid_proj"], w.spec["coord_proj"])
    try:
        at = np.array([float(x[f"GAU_{k}"]) for k in "XYZ"])
        err = np.array([float(x[f"GAU_Err{k}"]) for k in "XYZ"])
    except ValueError:
        return []
    if not np.isfinite(np.r_[at, err]).all() or (err > 50 * 1000 / w.ucf).any() or (err <= 0).any():
        return []
    to = np.array(inv.transform(*(np.array(fwd.transform(*at)) + err)))
    return [[big(v * f) for v, f in zip(at, F)], [big(v * f) for v, f in zip(2 * abs(to - at), F)]]


def run(job, wd):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.dates as mdates
    import pandas as pd
    from matplotlib.figure import Figure
    from obspy import UTCDateTime, read

    import quakemigrate.util as util
    from quakemigrate.io.data import Archive
    from quakemigrate.signal import QuakeScan, Trigger
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker
    r, rng = random.Random(job["seed"]), np.random.default_rng(job["seed"])
    drv.set_base(r.choice(["2021-03-01", "2019-12-30", "2020-02-28"]))
    day0 = mdates.date2num(drv.DAY0.datetime)
    tags, ev = set(), []
    w, arch_dir, t0, inv, comps = make(r, rng, wd, tags)
    gaps = r.random() < 0.3
    filt = r.choice([[2, 9, 2], [1, 8, 4]])
    okw = dict(sampling_rate=20, phases=list(w.used), position=r.choice(["classic", "centred"]),
               bandpass_filters={"P": filt, "S": filt}, allow_gaps=gaps,
               channel_counts={"P": 1, "S": r.choice([1, 2])},
               sta_lta_windows={"P": [0.2, 1.5], "S": [0.3, 1.5]})
    if r.random() < 0.4:
        cm = {"P": r.choice(["*Z", "*[Z]", "*[Z,3]"]), "S": r.choice(["*[N,E]", "*[E,1]", "*[1,2,N,E]", "*N"])}
        okw["channel_maps"] = {p: cm[p] for p in w.used} if r.random() < 0.6 else cm
        if len(okw["channel_maps"]["S"] if "S" in okw["channel_maps"] else "") < 3:
            okw["channel_counts"]["S"] = 1
        tags.add("own-channels")
    mags = None
    if r.random() < 0.5:
        mags = [dict(signal_window=1.0, noise_window=2.0, noise_measure=r.choice(["RMS", "STD"])),
                dict(A0=r.choice(["Hutton-Boore", "keir2006"]), use_hyp_dist=r.random() < 0.5,
                     weighted_mean=r.random() < 0.5, amp_feature=r.choice(["S_amp", "P_amp"]))]
    thr = r.choice([dict(threshold_method="static", static_threshold=r.choice([1.1, 1.3, 1.6, 1.3, 30.0])),
                    dict(threshold_method="static", static_threshold=1.25),
                    dict(threshold_method="mad", mad_window_length=60.0, mad_multiplier=3.0),
                    dict(threshold_method="median_ratio", median_window_length=60.0, median_multiplier=1.2)])
    mw, mei, pad, norm = r.choice([0.5, 1.0]), r.choice([2.0, 6.0]), r.choice([5.0, 20.0]), r.random() < 0.3
    region = None
    lo, hi = w.nodes.min(0), w.nodes.max(0)
    if r.random() < 0.4:
        tags.add("region")
        mid = (lo + hi) / 2
        a = r.randrange(3)
        L, H = lo - 1e-3, hi + 1e-3
        (L if r.random() < 0.5 else H)[a] = mid[a]
        region = [*map(float, L), *map(float, H)]
    a, b = t0 - 10, t0 + r.choice([80, 110])
    ta, tb = (a, b) if r.random() < 0.6 else (a + 10, b - 20)
    no_ava, all_st = r.random() < 0.15, r.random() < 0.5
    if no_ava:
        tags.add("no-availability")
    if not all_st:
        tags.add("used-stations")
    ts = r.choice([15.0, 30.0])
    drawn = job["drawn"]
    if drawn:
        tags.add("drawn")
    outlines, xy = [], None
    if r.random() < 0.4:
        tags.add("outlines")
        xy = os.path.join(wd, "outlines.csv")
        with open(xy, "w") as g:
            g.write("# what is drawn on the map\n")
            for k in range(r.choice([1, 2])):
                p = os.path.join(wd, f"outline{k}.csv")
                pts = [[round(r.uniform(lo[c], hi[c]), 5) for c in (0, 1)] for _ in range(r.choice([3, 6]))]
                with open(p, "w") as o:
                    o.write("# somewhere\n" + "".join(f"{x},{y}\n" for x, y in pts))
                g.write(f"{p},{r.choice(['black', 'b'])},{r.choice([0.5, 2])},{r.choice(['-', '--'])}\n")
                outlines.append([[int(round(v * 1e6)) for v in q] for q in pts])
    figs = []
    box = list(zip(lo, hi))
    zf = 1000 if w.ucf == 1000 else 1
    F = [1e6, 1e6, zf]
    real, tight = Figure.savefig, Figure.tight_layout

    def saved(self, fname, *args, **kw):
        figs.append((str(fname), extract(self, day0, box)))
        if drawn:
            real(self, fname, *args, **dict(kw, dpi=30))
        else:
            pathlib.Path(fname).write_bytes(b"figure")

    def stages(root, on, reg):
        onset = STALTAOnset(**okw)
        arch = Archive(str(arch_dir), w.st, archive_format="YEAR/JD/*_STATION_*", response_inv=inv,
                       response_removal_params=dict(water_level=60.0))
        m = None
        if mags:
            m = LocalMag(dict(mags[0]), dict(mags[1]), plot_amplitudes=on)
        q = QuakeScan(arch, w.lut, onset, root, "run", run_subname="sub" if r_sub else "",
                      picker=GaussianPicker(onset=onset, plot_picks=on), mags=m, timestep=ts,
                      marginal_window=mw, plot_event_summary=on, plot_all_stns=all_st, xy_files=xy,
                      write_marginal_coalescence=True, write_cut_waveforms=True, threads=1)
        q.detect(str(drv.DAY0 + a), str(drv.DAY0 + b))
        if no_ava:
            for f in pathlib.Path(root, "run", "detect", "availability").glob("*"):
                f.unlink()
        t = Trigger(w.lut, root, "run", trigger_name="sub" if r_sub else "", marginal_window=mw,
                    min_event_interval=mei, pad=pad, normalise_coalescence=norm, write_event_time_windows=True,
                    plot_trigger_summary=on, plot_all_stns=all_st, xy_files=xy, **thr)
        t.trigger(str(drv.DAY0 + ta), str(drv.DAY0 + tb), region=reg)
        try:
            q.locate(starttime=str(drv.DAY0 + ta), endtime=str(drv.DAY0 + tb))
        except util.NoTriggerFilesFound:
            pass

    r_sub = r.random() < 0.3
    sub = ["sub"] if r_sub else []
    roots = [os.path.join(wd, x) for x in ("with", "without", "everywhere")]
    logging.disable(logging.CRITICAL)
    Figure.savefig = saved
    if not drawn:
        Figure.tight_layout = lambda self, *a, **k: None
    try:
        stages(roots[0], True, region)
    finally:
        Figure.savefig, Figure.tight_layout = real, tight
    stages(roots[1], False, region)
    base = pathlib.Path(roots[0], "run")

    def contents(root):
        return sorted([str(p.relative_to(root)), hashlib.sha256(p.read_bytes()).hexdigest()[:10]]
                      for p in pathlib.Path(root).rglob("*") if p.is_file())

    def sub_(stage, *rest):
        return base.joinpath(stage, *sub, *rest)

    def rel(p):
        return str(pathlib.Path(p).relative_to(roots[0]))

    # what was found
    trig = []
    for f in sorted(sub_("trigger", "events").glob("*.csv")):
        trig += drv.rows_of(f)[1]
    disc = []
    if region is not None:
        other = Trigger(w.lut, roots[1], "run", trigger_name="everywhere", marginal_window=mw,
                        min_event_interval=mei, pad=pad, normalise_coalescence=norm, write_event_time_windows=True,
                        plot_trigger_summary=False, **thr)
        other.trigger(str(drv.DAY0 + ta), str(drv.DAY0 + tb))
        for f in sorted(pathlib.Path(roots[1], "run", "trigger", "everywhere", "events").glob("*.csv")):
            disc += [x for x in drv.rows_of(f)[1] if x["EventID"] not in {y["EventID"] for y in trig}]
        if disc:
            tags.add("discarded")
    logging.disable(logging.CRITICAL)
    if not trig:
        tags.add("no-events")
    located = {p.stem: drv.rows_of(p)[1][0] for p in sub_("locate", "events").glob("*.event")}
    if len(located) > 1:
        tags.add("several-events")

    full = "run_sub" if r_sub else "run"

    def row(x):
        return dict(c=ms(UTCDateTime(x["CoaTime"])), a=ms(UTCDateTime(x["MinTime"])),
                    b=ms(UTCDateTime(x["MaxTime"])), x=int(round(float(x["COA_X"]) * 1e6)),
                    y=int(round(float(x["COA_Y"]) * 1e6)), z=int(round(float(x["COA_Z"]) * zf)))

    span_days = [(max(ta, 86400 * k), min(tb, 86400 * (k + 1))) for k in (0, 1)
                 if max(ta, 86400 * k) < min(tb, 86400 * (k + 1))]
    scan = {}
    for p in sorted(base.joinpath("detect", "scanmseed").glob("*.scanmseed")):
        for tr in read(str(p)):
            o = int(round((tr.stats.starttime - drv.DAY0) * 20))
            for k, v in enumerate(tr.data):
                scan.setdefault(o + k, {})[tr.stats.station] = int(v)
    st_xyz = {s["Name"]: [int(round(s["Longitude"] * 1e6)), int(round(s["Latitude"] * 1e6)),
                          int(round(s["Elevation"] * zf))] for _, s in w.st.iterrows()}
    want = []
    ava = {}
    for p in sorted(base.joinpath("detect", "availability").glob("*.csv")):
        with open(p) as f:
            for line in csv.DictReader(f):
                t = line.pop("") if "" in line else line.pop(next(iter(line)))
                ava[ms(UTCDateTime(t))] = {k: int(float(v)) for k, v in line.items()}
    by_name = dict()
    for fn, ax in figs:
        by_name.setdefault(rel(fn), []).append(ax)
    P = lambda t, f=1000: int(round(float(t) * f))     # noqa: E731

    for s, e in span_days:
        u = drv.DAY0 + s
        name = rel(sub_("trigger", "summaries", f"{full}_{u.year}_{u.julday:03d}_Trigger.pdf"))
        want.append(name)
        if len(by_name.get(name, [])) != 1:
            continue
        axes = by_name[name][0]
        lim = 86400000 * (s // 86400 + 1)
        mine = [row(x) for x in trig if s * 1000 <= ms(UTCDateTime(x["CoaTime"])) <= e * 1000
                and ms(UTCDateTime(x["CoaTime"])) < lim]
        gone = [row(x) for x in disc if s * 1000 <= ms(UTCDateTime(x["CoaTime"])) <= e * 1000
                and ms(UTCDateTime(x["CoaTime"])) < lim]
        ks = [k for k in sorted(scan) if s - pad - 1e-6 <= k / 20 <= e + pad + 1e-6]
        rows = [dict(t=t, **{ph: sum(v for k, v in x.items() if k.endswith("_" + ph)) for ph in w.used})
                for t, x in sorted(ava.items())]
        # the day's own availability says which stations were used; without any, all are shown
        def used(x):
            return {k.split("_")[0] for y in x for k, v in y.items() if all_st or v == 1}
        near = used(ava.values()) or set(w.names)
        cols = used([x for t, x in ava.items() if t // 86400000 == s // 86400])
        own = bool([t for t in ava if t // 86400000 == s // 86400])
        least, most = (cols, cols | near) if own else (near, set(w.names))
        day_rows = [x for x in rows if s // 86400 * 86400000 <= x["t"]]
        same = all(x.get(f"{k}_P", 0) == x.get(f"{k}_S", 0) for x in ava.values() for k in w.names)
        if len(w.used) == 2 and not same and ava:
            tags.add("unequal-phases")
        ev.append(dict(
            e="trigger", norm=norm, mw=i3(mw), until=e * 1000, events=mine, gone=gone, region=region is not None, outlines=outlines,
            box=[[int(round(v * q)) for v, q in zip(region[c:c + 3], F)] for c in (0, 3)] if region else [],
            t=[k * 50 for k in ks], coa=[scan[k]["COA"] for k in ks], coan=[scan[k]["COA_N"] for k in ks],
            thr=int(round(thr["static_threshold"] * 1e5)) if "static_threshold" in thr else -1,
            axes=[dict(date=x["date"], d=[k + 1 for k in x["dims"]], v=sorted({P(t) for t in x["v"]}) if x["date"] else [],
                       span=[[P(p), P(q)] for p, q in x["span"]] if x["date"] else [],
                       lines=[dict(t=[P(t) for t in lx], y=[int(round(y * 1e5)) for y in ly])
                              for lx, ly in x["line"] if x["date"] and len(lx) == len(ks)],
                       pts=[[int(round(px * f1)), int(round(py * f2))] for cx, cy in x["pts"]
                            for px, py in zip(cx, cy)] if not x["date"] else [],
                       path=paths(x, f1, f2),
                       steps=[dict(t=[P(t) for t in lx], y=[int(round(y)) for y in ly])
                              for lx, ly in x["line"] if x["date"] and len(lx) != len(ks)])
                  for x in axes for f1, f2 in [(F[x["dims"][0]], F[x["dims"][1]])]],
            stations=[st_xyz[x] for x in sorted(least)], others=[st_xyz[x] for x in sorted(most - least)],
            ava=[dict(t=x["t"], n=[x[ph] for ph in w.used]) for x in day_rows if s * 1000 <= x["t"] <= e * 1000],
            same=same, counted=any(f"Triggered {len(mine)} event(s)" in t for x in axes for t in x["texts"])))

    for uid, x in sorted(located.items()):
        name = rel(sub_("locate", "summaries", f"{full}_{uid}_EventSummary.pdf"))
        want.append(name)
        ot = ms(UTCDateTime(x["DT"]))
        m = np.load(next(sub_("locate", "marginalised_coalescence_maps").glob(f"{uid}*")))
        q = np.unravel_index(np.nanargmax(m), m.shape)
        flat = int(np.ravel_multi_index(q, m.shape))
        if len(by_name.get(name, [])) == 1:
            axes = by_name[name][0]
            sl = [m[:, :, q[2]], m[:, q[1], :], m[q[0], :, :].T]
            top = float(np.nanmax(m))
            meshes = []
            for y in axes:
                for mid, val, nrm in y["mesh"]:
                    if len(mid) < 1:
                        continue
                    ux, uy = [np.unique(np.round(mid[:, c], 9)) for c in (0, 1)]
                    meshes.append(dict(d=[k + 1 for k in y["dims"]], c=sorted([int(np.argmin(abs(ux - p[0]))) + 1, int(np.argmin(abs(uy - p[1]))) + 1,
                                          int(round(v / top * 1e5))] for p, v in zip(mid, val))))
            told = next((numbers(t) for y in axes for t in y["texts"] if "r\u00b2" in t), [])
            gather = [dict(pts=[[P(px), y["rows"].get(round(float(py), 3), "?")] for px, py in zip(cx, cy)])
                      for y in axes if y["date"] for cx, cy in y["pts"]]
            ev.append(dict(
                e="event", uid=uid, ot=ot, x=int(round(float(x["X"]) * 1e6)), y=int(round(float(x["Y"]) * 1e6)),
                z=int(round(float(x["Z"]) * zf)), mags=mags is not None,
                axes=[dict(date=y["date"], d=[k + 1 for k in y["dims"]], v=sorted({P(t) for t in y["v"]}) if y["date"] else [],
                           cross=[[int(round(p * f1)), int(round(g * f2))] for p in y["v"] for g in y["h"]]
                           if not y["date"] else [],
                           path=paths(y, f1, f2),
                           pts=[[int(round(px * f1)), int(round(py * f2))] for cx, cy in y["pts"]
                                for px, py in zip(cx, cy)] if not y["date"] else [],
                           ell=[[big(p * f1), big(g * f2), big(a_ * f1), big(b_ * f2)] for p, g, a_, b_ in y["ell"]],
                           peaks=[[P(lx[int(np.argmax(ly))]), int(round(float(np.max(ly)) * 1000))]
                                  for lx, ly in y["line"] if len(lx) > 2] if y["date"] and not y["pts"] else [])
                      for y in axes for f1, f2 in [(F[y["dims"][0]], F[y["dims"][1]])]],
                coa=int(round(float(x["COA"]) * 1000)), outlines=outlines, ell=ellipse(w, x, F),
                places=[[st, *st_xyz[st]] for st in w.names],
                slices=[dict(d=d, c=sorted([i + 1, j + 1, int(round(float(g[i, j]) / top * 1e5))]
                                           for i in range(g.shape[0]) for j in range(g.shape[1])))
                        for d, g in zip(([1, 2], [1, 3], [3, 2]), sl)],
                meshes=meshes, gather=gather,
                arr=[[ph, s, ot + i3(w.tt[f"{s}_{ph}"][flat])] for ph in w.used for s in w.names],
                all=all_st, named=any(uid in t for y in axes for t in y["texts"]),
                told=[float(f'{float(x["ML"]):.3g}'), float(f'{float(x["ML_Err"]):.3g}')] == told
                if x.get("ML", "") not in ("", "nan") else told in ([], None)))
        picks = {}
        maps = dict(STALTAOnset(**okw).channel_maps)
        for line in drv.rows_of(sub_("locate", "picks", f"{uid}.picks"))[1]:
            picks.setdefault(line["Station"], []).append(line)
        made = {k for k in by_name if f"pick_plots/{uid}/" in k}
        for s, rows in sorted(picks.items()):
            name = rel(sub_("locate", "pick_plots", uid, f"{uid}_{s}.pdf"))
            if not rows:
                continue
            want.append(name)
            if len(by_name.get(name, [])) != 1:
                continue
            axes = by_name[name][0]
            for x_ in rows:
                tags.add("picked" if x_["PickTime"] not in ("-1", "-1.0") else "not-picked")
            ev.append(dict(
                e="pick", uid=uid, st=s, ot=ot,
                rows=[dict(ph=k["Phase"], m=ms(UTCDateTime(k["ModelledTime"])),
                           t=ms(UTCDateTime(k["PickTime"])) if k["PickTime"] not in ("-1", "-1.0") else -1,
                           h=i3(float(k["PickError"]) / 2)) for k in rows],
                may={p: [c for c in "ZNE12" if fnmatch.fnmatch("HH" + c, maps.get(p, ""))] for p in "PS"},
                axes=[dict(date=y["date"], v=sorted({P(t) for t in y["v"]}) if y["date"] else [],
                           ph=next((t[0] for t in y["texts"] if t in (
                               "P phase", "S phase", "P onset", "S onset")), "") if y["date"] else "",
                           comp=[c[-1] for t in y["texts"] for c in t.split(", ") if c.startswith("VQ.")],
                           span=[[P(p), P(g)] for p, g in y["span"]] if y["date"] else []) for y in axes]))
        if mags:
            tags.add("magnitudes")
            name = rel(sub_("locate", "amplitude_plots", f"{full}_{uid}_AmpVsDistance.pdf"))
            ml = x.get("ML", "")
            if ml not in ("", "nan"):
                want.append(name)
                if len(by_name.get(name, [])) == 1:
                    ax = by_name[name][0][0]
                    rows = drv.rows_of(sub_("locate", "amplitudes", f"{uid}.amps"))[1]
                    feat = mags[1]["amp_feature"]
                    R = []
                    for k in rows:
                        if k[feat] in ("", "nan"):
                            continue
                        ep, zd = float(k["epi_dist"]), float(k["z_dist"])
                        d = np.hypot(ep, zd) if mags[1]["use_hyp_dist"] else ep
                        R.append(dict(d=lg(d), a=lg(float(k[feat])), n=lg(float(k["Noise_amp"])),
                                      ml=int(round(float(k["ML"]) * 1e4)) if k.get("ML") not in ("", "nan", None) else -99999999))
                    pts = [[lg(px), lg(py)] for lx, ly in ax["line"] if len(lx) < 100 for px, py in zip(lx, ly)]
                    noise = [[lg(px), lg(py)] for cx, cy in ax["pts"] for px, py in zip(cx, cy)]
                    pred = []
                    for lx, ly in ax["line"]:
                        if len(lx) >= 100:
                            pred.append([lg(np.interp(10 ** (k["d"] / 1e4), lx, ly)) for k in R])
                    ev.append(dict(e="amp", uid=uid, rows=R, pts=pts, noise=noise, pred=sorted(pred),
                                   ml=int(round(float(ml) * 1e4)), err=int(round(float(x["ML_Err"]) * 1e4)),
                                   named=any(uid in t for t in ax["texts"])))
    if any(len(v) != 1 for v in by_name.values()):
        tags.add("remade")
    keep = [[p, h] for p, h in contents(roots[0]) if not p.endswith(".pdf") or p not in by_name]
    ref = [[p, h] for p, h in contents(roots[1]) if "/everywhere/" not in p]
    ev.append(dict(e="end", want=sorted(want), made=sorted(by_name), times=[len(v) for _, v in sorted(by_name.items())],
                   keep=[f"{p} {h}" for p, h in keep], ref=[f"{p} {h}" for p, h in ref]))
    return [dict(key=f"figures-{job['seed']}", ev=ev, note=dict(tags=sorted(tags)))]

