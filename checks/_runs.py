"""Histories of stages of several runs and sub-runs in one process, on real waveforms."""
import csv
import hashlib
import json
import logging
import os
import pathlib
import random
import re
import shutil

from vlib import drv

NAMES = ["run", "run.b", "run_b", "r", "run b", "a[1]", "events", "2021_060", "r%d", "run.b.c", "é{x}"]
SUBS = ["", "b", "b.c", "b_c", "events", "logs", "scanmseed", "c-1", "1"]


def digest(p):
    return hashlib.sha256(pathlib.Path(p).read_bytes()).hexdigest()[:12]


def canon(x, priv, depth=0):
    """A description of an object's settings."""
    import numpy as np
    import pandas as pd
    if isinstance(x, np.ndarray):
        return hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:12] if x.dtype != object else repr(x.tolist())
    if isinstance(x, pd.DataFrame):
        return x.to_csv()
    if isinstance(x, pd.Series):
        return x.to_csv()
    if isinstance(x, dict):
        return [[str(k), canon(v, priv, depth + 1)] for k, v in sorted(x.items(), key=lambda q: str(q[0]))
                if priv or not str(k).startswith("_")]
    if isinstance(x, (list, tuple)):
        return [canon(v, priv, depth + 1) for v in x]
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return repr(x)
    if hasattr(x, "__dict__") and depth < 3 and type(x).__module__.startswith("quakemigrate"):
        return canon({k: v for k, v in vars(x).items() if k not in ("pre_pad", "post_pad")}, priv, depth + 1)
    return type(x).__name__ + (str(x) if type(x).__module__.startswith("pyproj") else "")


def clean(n):
    return n.replace(".", "_")


class Setting:
    """Lookup tables, archives, onsets, pickers and magnitudes to choose from."""

    def __init__(self, root, seed):
        import numpy as np
        from obspy import Stream, Trace

        from checks.q27 import inventory, response
        r, rng = random.Random(seed), np.random.default_rng(seed)
        names = ["S1", "S2", "S3", "S4"]
        self.fractions = r.sample([0.1, 0.02, 0.25], 2)
        self.new_tables()
        w = self.worlds[0]
        self.t0 = r.choice([43200, 86400 - 100])     # span of the data: t0 - 150 .. t0 + 350
        self.root = root
        self.args = []
        sr = 40
        chans = {}
        for a in range(2):
            d = pathlib.Path(root, f"archive{a}")
            n = 500 * sr
            begin = drv.DAY0 + self.t0 - 150
            data = {(s, c): rng.normal(0, 30, n) for s in names for c in "ZNE"}
            for k in range(4):
                at = 150 + 20 + 45 * k + r.random() * 12
                node = r.randrange(len(w.nodes))
                for s in names:
                    for p, comps, amp in (("P", "Z", 900), ("S", "NE", 1500)):
                        i = int((at + w.tt[f"{s}_{p}"][node]) * sr)
                        for c in comps:
                            m = int(0.6 * sr)
                            data[s, c][i:i + m] += amp * np.exp(-np.arange(m) / (0.15 * sr)) * rng.normal(0, 1, m)
            for (s, c), y in data.items():
                tr = Trace(y.astype(np.int32), header=dict(network="VQ", station=s, channel="HH" + c,
                                                          sampling_rate=sr, starttime=begin))
                for k in (0, 1):
                    u = drv.DAY0 + 86400 * k
                    t = tr.slice(u, u + 86400 - 1 / sr)
                    if t.stats.npts:
                        p = d / f"{u.year}" / f"{u.julday:03d}" / f"VQ_{s}_HH{c}.m"
                        p.parent.mkdir(parents=True, exist_ok=True)
                        t.write(str(p), format="MSEED")
                chans[tr.id] = chans.get(tr.id) or (response(r), None)
            self.args.append((str(d), inventory(chans)))
        self.stations = names
        self.new_objects()

    def new_tables(self):
        from checks._world import World
        names = ["S1", "S2", "S3", "S4"]
        self.worlds = [World(names, n=(5, 5, 5), spacing=2.0, sr=20),
                       World(names, n=(4, 3, 3), spacing=0.7, sr=20)]
        self.luts = [w.lut for w in self.worlds]
        for x, q in zip(self.luts, self.fractions):
            x.fraction_tt = q

    def new_objects(self):
        from quakemigrate.io.data import Archive
        from quakemigrate.signal.local_mag import LocalMag
        from quakemigrate.signal.onsets import STALTAOnset
        from quakemigrate.signal.pickers import GaussianPicker
        self.archs = [Archive(d, self.worlds[0].st, archive_format="YEAR/JD/*_STATION_*", response_inv=inv,
                              response_removal_params=dict(water_level=60.0)) for d, inv in self.args]
        self.onsets = [STALTAOnset(sampling_rate=20, bandpass_filters={"P": [2, 9, 2], "S": [2, 9, 2]},
                                   sta_lta_windows={"P": [0.2, 1.5], "S": [0.3, 1.5]}),
                       STALTAOnset(sampling_rate=20, position="centred", allow_gaps=True,
                                   bandpass_filters={"P": [2, 9.5, 2], "S": [1, 8, 4]},
                                   sta_lta_windows={"P": [0.2, 3.0], "S": [0.2, 4.0]})]
        self.pickers = [GaussianPicker(onset=o, plot_picks=False) for o in self.onsets]
        self.mags = [None, LocalMag(dict(signal_window=1.0, noise_window=2.0), dict(A0="Hutton-Boore"),
                                    plot_amplitudes=False),
                     LocalMag(dict(noise_window=1.0, highpass_filter=True, highpass_freq=2.0),
                              dict(A0="keir2006", weighted_mean=False), plot_amplitudes=False)]
        self.lut_keys = [set(vars(x)) for x in self.luts]

    def state(self):
        out = {}
        for i, x in enumerate(self.luts):
            out[f"lut{i}"] = json.dumps(canon({k: v for k, v in vars(x).items() if k in self.lut_keys[i]},
                                              True), default=str)
        for k in ("archs", "onsets", "pickers", "mags"):
            for i, x in enumerate(getattr(self, k)):
                y = {q: getattr(x, q) for q in dir(type(x)) if isinstance(getattr(type(x), q), property)
                     and q not in ("pre_pad", "post_pad")}
                out[f"{k}{i}"] = json.dumps([canon(x, False), canon(y, False)], sort_keys=True, default=str)
        return out


def snapshot(root):
    return {str(p.relative_to(root)): digest(p) for p in pathlib.Path(root).rglob("*") if p.is_file()}


STAMP = re.compile(r"_\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d\.log$")


def jobs(tier, seed, salt, many):
    r = random.Random(seed * 32416190071 + salt)
    n = 32 if tier == "quick" else 320
    return [dict(seed=r.randrange(1 << 30), many=many, ops=r.randint(11, 16) if many else r.randint(9, 14), plots=k % 16 == 5)
            for k in range(n)]


def run(job, wd):
    from quakemigrate.signal import QuakeScan, Trigger
    import quakemigrate.util as util
    r = random.Random(job["seed"])
    drv.set_base(r.choice(["2021-03-01", "2019-12-31", "2020-02-29"]))
    root = os.path.join(wd, r.choice(["root", "root.v1"]))
    os.makedirs(root)
    S = Setting(root, job["seed"])
    tags, ev = set(), []
    nr, ns = (r.randint(2, 3), r.randint(1, 3)) if job["many"] else (r.randint(1, 2), 1)
    if job["many"] and r.random() < 0.4:
        runs = r.choice([["run", "run.b"], ["run.b", "run_b.c"], ["r", "run"]])[:nr]
        tags.add("similar-names")
    else:
        runs, seen = [], set()
        for n in r.sample(NAMES, len(NAMES)):
            if clean(n) not in seen and len(runs) < nr:
                runs.append(n)
                seen.add(clean(n))
    subs, seen = [], set()
    for n in [""] * (r.random() < 0.7) + r.sample(SUBS, len(SUBS)):
        if clean(n) not in seen and len(subs) < ns:
            subs.append(n)
            seen.add(clean(n))
    if any("." in x for x in runs + subs):
        tags.add("dots")
    if "" in subs and len(subs) > 1:
        tags.add("parent-and-sub")
    spans = [[S.t0 + a, S.t0 + b] for a, b in ((10, 100), (60, 120), (10, 190), (0, 120))]
    spans = r.sample(spans, 2)
    if S.t0 > 80000:
        tags.add("two-days")
    scans = [dict(lut=r.randrange(2), arch=r.randrange(2), onset=r.randrange(2), mags=r.randrange(3),
                  ts=r.choice([15.0, 30.0]), mw=r.choice([0.5, 1.0]), maps=r.random() < 0.3,
                  cut=r.random() < 0.4, real=r.random() < 0.3, wa=r.random() < 0.3,
                  ru=r.choice(["displacement", "velocity"]), pre=r.choice([None, 3.0]))
             for _ in range(2)]
    if scans[0]["onset"] == scans[1]["onset"] and scans[0]["lut"] != scans[1]["lut"]:
        tags.add("onset-shared-by-tables")
    trigs = [dict(static_threshold=r.choice([1.2, 1.4, 1.6]), marginal_window=r.choice([0.5, 1.0]),
                  min_event_interval=r.choice([2.0, 6.0]), normalise_coalescence=r.random() < 0.4,
                  pad=r.choice([10.0, 60.0]), write_event_time_windows=r.random() < 0.4,
                  threshold_method=r.choice(["static", "static", "mad", "median_ratio"]),
                  smooth_coa=r.random() < 0.3,
                  mad_window_length=r.choice([20.0, 60.0]), mad_multiplier=4.0,
                  median_window_length=30.0, median_multiplier=1.3) for _ in range(2)]
    if job["plots"]:
        tags.add("plots")
    objs = {}
    done = []        # (stage, run, sub, choice) so far, some to be repeated

    def scan_obj(run, sub, k, log, fresh):
        c = scans[k]
        key = ("scan", run, sub, k)
        if key not in objs or fresh:
            objs[key] = QuakeScan(
                S.archs[c["arch"]], S.luts[c["lut"]], S.onsets[c["onset"]], root, run,
                run_subname=sub, log=log, picker=S.pickers[c["onset"]], mags=S.mags[c["mags"]],
                timestep=c["ts"], marginal_window=c["mw"], plot_event_summary=job["plots"],
                write_coalescence=c["maps"], write_marginal_coalescence=c["maps"],
                write_cut_waveforms=c["cut"], write_real_waveforms=c["real"],
                write_wa_waveforms=c["wa"], real_waveform_units=c["ru"], wa_waveform_units=c["ru"],
                threads=r.choice([1, 2]))
            if c["pre"]:
                objs[key].pre_cut = c["pre"]
        else:
            tags.add("same-object")
        o = objs[key]
        o.log = log
        return o

    def trig_obj(run, sub, k, lut, log, fresh):
        key = ("trig", run, sub, lut)
        if key not in objs or fresh:
            objs[key] = Trigger(S.luts[lut], root, run, trigger_name=sub, log=log,
                                plot_trigger_summary=job["plots"], **trigs[k])
            return objs[key]
        tags.add("same-object")
        o = objs[key]
        o.log = log
        for a, v in trigs[k].items():
            setattr(o, a, v)
        return o

    def days(a, b):
        out = []
        d = int(a // 86400)
        while d * 86400 <= b:
            t = drv.DAY0 + 86400 * d
            out.append(f"{t.year}_{t.julday:03d}")
            d += 1
        return out

    last = {}        # run -> scan choice of the latest detect
    for step in range(job["ops"]):
        stage = None
        if done and r.random() < 0.45:
            stage, run_, sub, k, span, opt = r.choice(done)
            tags.add("again")
            if r.random() < 0.35:
                run_ = r.choice(runs)
                sub = r.choice(subs)
        if stage is None:
            stage = "detect" if step < 2 else r.choice(["detect", "trigger", "trigger", "locate", "locate"])
            run_, sub = r.choice(runs), r.choice(subs)
            if step == 1 and len(runs) > 1:
                run_ = next(x for x in runs if x != ev_runs)
            k, span = r.randrange(2), r.choice(spans)
            opt = r.choice(["span", "span", "file"]) if stage == "locate" else ""
        if step == 0:
            ev_runs = run_
        if r.random() < 0.8:    # where there is something to go on
            have = [(x, y) for x in runs for y in subs if next(pathlib.Path(
                root, clean(x), "trigger", clean(y), "events").glob("*.csv"), None)]
            if stage == "locate" and have and (run_, sub) not in have:
                run_, sub = r.choice(have)
        base = pathlib.Path(root, clean(run_))
        tdir = base / "trigger" / clean(sub) / "events"
        full = clean(run_) + (f"_{clean(sub)}" if sub else "")
        # what would make no sense: trigger before detect, locate before trigger
        if stage == "trigger" and not (base / "detect").exists():
            stage = "detect"
        if stage == "locate" and not any(tdir.glob("*.csv")):
            stage = "trigger" if (base / "detect").exists() else "detect"
        if stage == "detect":
            sub_ = sub
        a, b = span
        log, fresh = r.random() < 0.4, r.random() < 0.4
        back = r.random() < 0.05
        if back:
            a, b = b, a
            tags.add("raised")
        done.append((stage, run_, sub, k, span, opt))
        # as if in a new process
        if step and r.random() < 0.15:
            S.new_tables()
            S.new_objects()
            objs.clear()
            tags.add("all-new")
        # other objects may be made, but not used, in between
        if r.random() < 0.3:
            scan_obj(r.choice(runs), r.choice(subs), r.randrange(2), False, True)
            tags.add("made-between")
        st = drv.DAY0 + a
        en = drv.DAY0 + b
        e = dict(e="op", stage=stage, run=list(run_), sub=list(sub), days=days(a, b) if not back else [],
                 rdays=[], uids=[], stations=S.stations, log=log, raised="", written=[], removed=[],
                 changed=[])
        given = None
        if stage == "detect":
            key = dict(stage="detect", span=span, back=back, **{q: scans[k][q] for q in ("lut", "arch", "onset", "ts")})
            # timesteps are completed
            n = -(-(b - a) // scans[k]["ts"])
            e["days"] = days(a, a + n * scans[k]["ts"] - 0.05) if not back else []
            o = scan_obj(run_, sub, k, log, fresh)
            f = lambda: o.detect(str(st), str(en))  # noqa: E731
        elif stage == "trigger":
            lut = scans[last.get(run_, 0)]["lut"]
            key = dict(stage="trigger", span=span, back=back, lut=lut, plots=job["plots"], **trigs[k])
            e["rdays"] = days(a - trigs[k]["pad"] - 1, b + trigs[k]["pad"] + 1)
            o = trig_obj(run_, sub, k, lut, log, fresh)
            f = lambda: o.trigger(str(st), str(en))  # noqa: E731
        else:
            key = dict(stage="locate", back=back, plots=job["plots"], **scans[k])
            files = sorted(tdir.glob("*.csv"))
            if opt == "file" and files:
                given = pathlib.Path(root, "given.csv")
                src = r.choice(files)
                shutil.copy(src, given)
                key["file"] = digest(given)
                kw = dict(trigger_file=str(given))
                files = [given]
                tags.add("given-file")
            else:
                kw = dict(starttime=str(st), endtime=str(en))
                key["span"] = span
                e["rdays"] = days(a, b)
            for p in files:
                e["uids"] += [x["EventID"] for x in drv.rows_of(p)[1]]
            o = scan_obj(run_, sub, k, log, fresh)
            f = lambda: o.locate(**kw)  # noqa: E731
        e["key"] = json.dumps(key, sort_keys=True)
        before, state = snapshot(root), S.state()
        for p in before:
            os.utime(os.path.join(root, p), (1, 1))
        logging.disable(logging.NOTSET if log else logging.CRITICAL)
        try:
            f()
        except (util.TimeSpanException, util.NoTriggerFilesFound,
                util.NoScanMseedDataException) as x:
            e["raised"] = type(x).__name__
        finally:
            logging.disable(logging.CRITICAL)
        if stage == "detect" and not back:
            last[run_] = k
        after, state2 = snapshot(root), S.state()
        e["changed"] = sorted(q for q in state if state[q] != state2[q])
        e["removed"] = [p.split("/") for p in sorted(before) if p not in after]
        for p, dg in sorted(after.items()):
            full_p = os.path.join(root, p)
            if p in before and before[p] == dg and os.stat(full_p).st_mtime_ns == 10 ** 9:
                continue
            parts = p.split("/")
            if p.endswith(".pdf"):
                dg = "pdf"
            if parts[-2] == "logs":
                parts[-1] = STAMP.sub("_STAMP.log", parts[-1])
                text = pathlib.Path(full_p).read_text(errors="replace")
                heads = set(re.findall(r"QuakeMigrate RUN - Path: .* - Name: (.*)$", text, re.M))
                mine = clean(parts[-1][:-len("_STAMP.log")])
                dg = ("empty" if not text.strip() else "foreign" if heads - {mine} else
                      "messages" if heads else "no-heading")
            e["written"].append([parts, dg])
        e["uids"] = sorted(set(e["uids"]))
        if given is not None:
            given.unlink()
        tags.add(stage)
        if log:
            tags.add("log")
        if stage == "locate" and e["written"]:
            tags.add("located")
            if scans[k]["mags"]:
                tags.add("magnitudes")
        if stage == "trigger" and any("events" in w[0] for w in e["written"]):
            tags.add("triggered")
        ev.append(e)
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
    return [dict(key=f"history-{job['seed']}", ev=ev, note=dict(tags=sorted(tags)))]
