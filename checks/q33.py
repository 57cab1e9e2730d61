"""Q33: Windows of data are whole samples, wide enough, and complete at every sampling rate."""
import os
import pathlib
import random

from vlib import drv

TRACE = "PadsTrace"
DESIGN = {"quick": [("PadsMC", "PadsMC.cfg")], "thorough": [("PadsMC", "PadsMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("Pads of STALTAOnset objects for random STA and LTA windows (whole numbers of samples or not), "
        "sampling rates from 10 to 250 Hz including 30, 60, 64, 75, 120 and 128 Hz, traveltimes and "
        "spans; and QuakeScan.detect and QuakeScan.locate reading day files of complete data (at the "
        "same rate or a multiple of it, also over midnight): every window handed to the onset "
        "function, the availability it finds, which onsets are real ones and how many samples "
        "are written are judged by Pads.tla.")
TAGS = ["classic", "centred", "fractional-windows", "fine-interval", "decimated", "midnight", "detect",
        "locate", "picker", "long-traveltimes", "P", "S", "PS", "gappy-station", "gaps-allowed"]
ASSUMPTIONS = ["sampling rates are whole numbers of Hz", "timesteps are whole numbers of samples",
               "complete data are on the sample grid"]
CHUNK = 150
RATES = [10, 20, 25, 30, 40, 50, 60, 64, 75, 100, 120, 125, 128, 200, 250]


def jobs(tier, seed, gens):
    r = random.Random(seed * 49979687 + 33)
    n, m = (24, 24) if tier == "quick" else (300, 300)
    return ([dict(kind="pads", seed=r.randrange(1 << 30), n=40) for _ in range(n)]
            + [dict(kind="scan", seed=r.randrange(1 << 30), n=2) for _ in range(m)])


def run(job, wd):
    return (pads if job["kind"] == "pads" else scans)(job, wd)


def windows_of(r, sr, tags):
    out = {}
    frac = r.random() < 0.5
    if frac:
        tags.add("fractional-windows")
    for p in "PS":
        sta = r.choice([0.1, 0.2, 0.2, 0.3, 0.5, 1.0])
        lta = r.choice([1.0, 1.0, 1.5, 2.0, 3.0, 10.0]) if r.random() < 0.9 else sta + 2 / sr
        if frac:
            sta, lta = sta + r.choice([0.0, 0.01, 0.033, 0.007]), lta + r.choice([0.01, 0.02, 0.14, 1 / 3])
        sta, lta = max(sta, 2 / sr), max(lta, 4 / sr)
        out[p] = [sta, max(lta, sta + 2 / sr)]
    return out


def wins_of(windows, sr, cen):
    q = [[int(round(x * sr)) + 1 for x in windows[p]] for p in "PS"]
    return [dict(ns=a, nl=b, centred=cen) for a, b in q]


def s4(x):
    return int(round(x * 1e4))


def pads(job, wd):
    from quakemigrate.signal.onsets import CentredSTALTAOnset, STALTAOnset
    r = random.Random(job["seed"])
    cases = []
    for rep in range(job["n"]):
        tags = set()
        sr = r.choice(RATES)
        if 10 ** 6 % sr:
            tags.add("fine-interval")
        w = windows_of(r, sr, tags)
        cen = r.random() < 0.5
        tags.add("centred" if cen else "classic")
        how = r.randrange(3)
        if how == 0 and cen:
            o = CentredSTALTAOnset(sampling_rate=sr, sta_lta_windows=w)
        elif how == 1:
            o = STALTAOnset(sampling_rate=sr, position="centred" if cen else "classic")
            o.sta_lta_windows = w
        else:
            o = STALTAOnset(sampling_rate=sr, position="centred" if cen else "classic", sta_lta_windows=w)
        tt = r.choice([0.0, 1.0, r.uniform(0, 3), r.uniform(3, 90)])
        o.post_pad = tt
        ev = []
        for _ in range(4):
            span = r.choice([1.0, 4.0, 30.0, 120.0, 300.0, r.randint(1, 60 * sr) / sr])
            pre, post = o.pad(span)
            ev.append(dict(e="pad", L=int(round(span * sr)), pre4=s4(pre * sr), post4=s4(post * sr)))
        cases.append(dict(key=f"pads-{rep}", wins=wins_of(w, sr, cen), tt=int(-(-tt * sr // 1)), ev=ev,
                          note=dict(tags=sorted(tags))))
    return cases


def scans(job, wd):
    import numpy as np
    from obspy import Trace
    from obspy import read

    import quakemigrate.util as util
    from checks import _locate
    from checks._world import World
    from quakemigrate.io.data import Archive
    from quakemigrate.signal import QuakeScan
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker
    r = random.Random(job["seed"])
    rng = np.random.default_rng(job["seed"])
    drv.set_base(r.choice(["2021-03-01", "2019-12-31"]))
    cases = []

    class Rec(STALTAOnset):
        seen = None

        def calculate_onsets(self, data, timespan=None):
            try:
                on, od = super().calculate_onsets(data, timespan=timespan)
                self.seen.append((data, timespan, on, od, ""))
                return on, od
            except Exception as x:
                self.seen.append((data, timespan, None, None, type(x).__name__))
                raise

    for rep in range(job["n"]):
        tags = set()
        sr = r.choice([20, 25, 30, 40, 50, 60, 64, 75, 100, 120, 125, 128])
        if 10 ** 6 % sr:
            tags.add("fine-interval")
        phases = r.choice([["P", "S"], ["P", "S"], ["P"], ["S"]])
        tags.add("".join(phases))
        big = r.random() < 0.3
        if big:
            tags.add("long-traveltimes")
        names = ["S1", "S2", "S3"][:r.randint(1, 3)]
        W = World(names, n=(2, 3, 2), spacing=8.0 if big else 0.8, sr=sr, phases=tuple(phases))
        w = windows_of(r, sr, tags)
        cen = r.random() < 0.5
        tags.add("centred" if cen else "classic")
        mult = r.choice([1, 1, 1, 2, 4])
        if mult > 1:
            tags.add("decimated")
        t0 = r.choice([3600, 86400 - 20, 86400])
        if t0 != 3600:
            tags.add("midnight")
        # one station may have a hole in all of its data
        hole = r.choice(names) if r.random() < 0.2 else None
        allow = hole is not None and r.random() < 0.5
        if hole:
            tags.add("gaps-allowed" if allow else "gappy-station")
        lmax = max(x[1] for x in w.values())
        tt = max(float(W.tt[c].max()) for c in W.cols)
        steps = r.randint(1, 3)
        ts = r.choice([sr * r.choice([5, 10, 20]), r.randint(3 * sr, 20 * sr)])
        mw = r.choice([sr // 2, sr, 2 * sr, r.randint(2, 3 * sr)])
        lead = int((5 * lmax + 10 + tt) * 1.2) + 6
        a0, b0 = t0 - lead, t0 + int(steps * ts / sr) + 2 * lead + int(8 * mw / sr) + 5
        root = pathlib.Path(wd, f"s{rep}", "archive")
        R = sr * mult
        for s in names:
            for c in "ZNE":
                y = rng.integers(-1000, 1000, (b0 - a0) * R).astype(np.int32)
                tr = Trace(y, header=dict(network="VQ", station=s, channel="HH" + c, sampling_rate=R,
                                          starttime=drv.DAY0 + a0))
                for d in (0, 1):
                    u = drv.DAY0 + 86400 * d
                    x = tr.slice(u, u + 86400 - 0.5 / R)
                    if not x.stats.npts:
                        continue
                    out = [x]
                    if s == hole:
                        h = drv.DAY0 + t0 + 1.0
                        out = [q for q in (x.slice(endtime=h), x.slice(starttime=h + 1.0)) if q.stats.npts]
                    for i, q in enumerate(out):
                        p = root / f"{u.year}" / f"{u.julday:03d}" / f"VQ_{s}_HH{c}{i}.m"
                        p.parent.mkdir(parents=True, exist_ok=True)
                        q.write(str(p), format="MSEED")
        o = Rec(sampling_rate=sr, position="centred" if cen else "classic", sta_lta_windows=w,
                phases=phases, allow_gaps=allow,
                bandpass_filters={p: [0.1 * sr, 0.4 * sr, 2] for p in "PS"})
        o.seen = []
        arch = Archive(str(root), W.st, archive_format="YEAR/JD/*_STATION_*")
        scan = QuakeScan(arch, W.lut, o, os.path.join(wd, f"s{rep}"), "r", log=False,
                         picker=GaussianPicker(onset=o, plot_picks=False), timestep=ts / sr,
                         marginal_window=mw / sr, plot_event_summary=False)
        cols = [(s, p) for p in phases for s in names]
        start = drv.DAY0 + t0
        ev = []

        def look(first, L, data, span, on, od, raised, told):
            pre = (first - data.starttime) * sr
            post = (data.endtime - first) * sr - (L - 1)
            e = dict(e="win", L=L, pre4=s4(pre), post4=s4(post), n=0, avail=[], want=[], cols=[],
                     told=told, raised=raised)
            h = (t0 + 1 - (data.starttime - drv.DAY0), t0 + 2 - (data.starttime - drv.DAY0))
            whole = h[1] < -0.1 or h[0] > (data.endtime - data.starttime) + 0.1
            near = h[1] < 0.1 or h[0] > (data.endtime - data.starttime) - 0.1
            if od is not None:
                e["n"] = int(on.shape[1])
                for s, p in cols:
                    if s == hole and (allow or near != whole):
                        continue
                    e["avail"].append(int(od.availability[f"{s}_{p}"]))
                    e["want"].append(int(s != hole or whole))
                    x = od.onsets.get(s, {}).get(p)
                    if x is None or s == hole:
                        continue
                    k = np.flatnonzero(x != 1.0)
                    lo, hi = (int(k[0]), int(k[-1])) if len(k) else (0, -1)
                    e["cols"].append(dict(ph="PS".index(p) + 1, lo=lo, hi=hi,
                                          odd=int((x[lo:hi + 1] == 1.0).sum())))
            elif hole and len(names) == 1 and raised == "DataAvailabilityException":
                if not whole:
                    e = None
            return e

        # detect
        o.seen.clear()
        tags.add("detect")
        scan.detect(str(start), str(start + (steps * ts - 0.5) / sr))
        skipped = 0
        for i, (d, span, on, od, x) in enumerate(o.seen):
            e = look(start + i * ts / sr, ts, d, span, on, od, x, span is not None)
            skipped += e is None
            if e is not None:
                ev.append(e)
        n = 0
        files = sorted(pathlib.Path(wd, f"s{rep}", "r", "detect", "scanmseed").glob("*"))
        for p in files:
            for tr in read(str(p)):
                n += tr.stats.npts * (tr.stats.station == "COA")
        ev.append(dict(e="end", windows=steps - skipped, out=int(n), outwant=steps * ts))
        # locate
        times, evs = [], []
        for i in range(r.randint(1, 2)):
            k = r.randrange(ts * steps) + i * 3 * mw
            t = start + k / sr
            x, y, z = W.nodes[0]
            evs.append(dict(time=t, uid=_locate.uid_of(t), x=x, y=y, z=z, trig=200000, coa=200000,
                            norm=200000))
        tf = os.path.join(wd, f"s{rep}", "t.csv")
        evs.sort(key=lambda e: e["time"])
        if len({e["uid"] for e in evs}) == len(evs):
            _locate.trigger_csv(tf, evs)
            o.seen.clear()
            tags.add("locate")
            try:
                scan.locate(trigger_file=tf)
            except util.DataAvailabilityException:
                pass
            # the windows of one event follow each other
            times = [e["time"] for e in evs]
            want = skipped = 0
            for d, span, on, od, x in o.seen:
                # which event: the one whose window it is
                i = min(range(len(times)), key=lambda j: abs(
                    times[j] - 2 * mw / sr - scan.pre_pad - d.starttime))
                e = look(times[i] - 2 * mw / sr, 4 * mw + 1, d, span, on, od, x, span is not None)
                if span is not None:
                    tags.add("picker")
                skipped += e is None
                if e is not None:
                    ev.append(e)
            located = len(list(pathlib.Path(wd, f"s{rep}", "r", "locate", "events").glob("*.event")))
            ev.append(dict(e="end", windows=len(evs) + located - skipped, out=0, outwant=0))
        cases.append(dict(key=f"scan-{rep}", wins=wins_of(w, sr, cen), tt=int(-(-tt * sr // 1)), ev=ev,
                          note=dict(tags=sorted(tags))))
    return cases
