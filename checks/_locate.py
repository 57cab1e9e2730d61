"""Driving QuakeScan.locate on prescribed onsets and independently written trigger files."""
import csv
import hashlib
import os
import pathlib
import random
import shutil

import numpy as np
from obspy import UTCDateTime

from vlib import drv

FAULTS = ("gap", "empty", "none")
COLS = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]


def uid_of(t):
    """The identifier trigger gives an event at time t: its digits to the millisecond."""
    return t.strftime("%Y%m%d%H%M%S") + f"{t.microsecond // 1000:03d}"


def write_trigger(run_dir, run_name, sub, events, extra=False, empty_days=(), style=""):
    """Day files in the documented layout, without the code under test."""
    d = pathlib.Path(run_dir) / "trigger" / sub / "events"
    d.mkdir(parents=True, exist_ok=True)
    days = {k: [] for k in empty_days}
    for e in events:
        days.setdefault(int((e["time"] - drv.DAY0) // 86400), []).append(e)
    for k, evs in days.items():
        t = drv.DAY0 + 86400 * k
        trigger_csv(d / f"{run_name}_{t.year}_{t.julday:03d}_TriggeredEvents.csv", evs, extra,
                    style)


def trigger_csv(path, evs, extra=False, style=""):
    """`style`: "old" and "older" are the layouts of earlier versions, which locate still reads."""
    cols = ["COA_V" if q == "TRIG_COA" and style else q for q in COLS]
    cut = len(cols) - 2 if style == "older" else len(cols)
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(cols[:cut] + (["MinTime", "MaxTime"] if extra else []))
        for e in evs:
            r = [e["uid"], str(e["time"]), e["trig"] / 1e5, e["x"], e["y"], e["z"],
                 e["coa"] / 1e5, e["norm"] / 1e5][:cut]
            if extra:
                r += [str(e["time"] - 1), str(e["time"] + 1)]
            w.writerow(r)


def digest(p):
    return hashlib.sha256(pathlib.Path(p).read_bytes()).hexdigest()[:16]


def i5f(x):
    try:
        return int(round(float(x) * 1e5))
    except (TypeError, ValueError, OverflowError):
        return -2 ** 30


def outputs(loc_dir):
    """{kind: {uid: path}} of what the stage left, and anything else."""
    kinds = {"events": ".event", "picks": ".picks", "coalescence_maps": ".npy",
             "marginalised_coalescence_maps": ".npy"}
    out, stray = {k: {} for k in kinds}, []
    loc_dir = pathlib.Path(loc_dir)
    for p in sorted(loc_dir.rglob("*")) if loc_dir.is_dir() else []:
        if p.is_dir():
            continue
        k = p.parent.name
        if k in kinds and p.parent.parent == loc_dir and p.suffix == kinds[k]:
            out[k][p.stem] = p
        elif k != "logs" and "logs" not in p.parts:
            stray.append(str(p.relative_to(loc_dir)))
    return out, stray


def frac_node(w, lon, lat, z):
    """Position in the grid, in hundredths of a node, counted from the first node."""
    from pyproj import Transformer
    tr = Transformer.from_proj(w.spec["coord_proj"], w.spec["grid_proj"])
    ll = np.array(tr.transform(*w.spec["ll_corner"]))
    sp = np.broadcast_to(np.asarray(w.spec["node_spacing"], float), 3)
    v = (np.array(tr.transform(float(lon), float(lat), float(z))) - ll) / sp
    return [int(round(100 * x)) if np.isfinite(x) and abs(x) < 1e6 else -10 ** 6 for x in v]


def event_record(w, p, n_of, sr):
    """What an event file says."""
    with open(p, newline="") as f:
        r = list(csv.reader(f))
    e = dict(file=p.stem, rows=len(r) - 1, uid="", dt=-1, lc=-10 ** 6, norm=-1, trig=0, dec=0,
             decn=0, pos=[-10 ** 6] * 3, cols="", finite=0, sha=digest(p))
    if len(r) < 2:
        return e
    d = dict(zip(r[0], r[1]))
    e["cols"] = ",".join(r[0])
    e["uid"] = d.get("EventID", "")
    try:
        t = (UTCDateTime(d["DT"]) - drv.DAY0) * sr
        e["dt"] = int(round(t)) if abs(t - round(t)) < 2e-3 else -1
    except Exception:
        pass
    n = n_of(e["file"])
    c = float(d.get("COA") or "nan")
    e["lc"] = int(round(1000 * n * np.log(c))) if c > 0 else -10 ** 6
    nrm = float(d.get("COA_NORM") or "nan")
    e["norm"] = int(round(1000 * nrm)) if nrm < 1e6 else -1
    e["trig"], e["dec"], e["decn"] = (i5f(d.get(k)) for k in ("TRIG_COA", "DEC_COA",
                                                               "DEC_COA_NORM"))
    try:
        e["pos"] = frac_node(w, d["X"], d["Y"], d["Z"])
    except Exception:
        pass
    e["finite"] = int(all(np.isfinite(float(d.get(k) or "nan")) for k in (
        "GAU_X", "GAU_Y", "GAU_Z", "GAU_ErrX", "GAU_ErrY", "GAU_ErrZ", "COV_ErrX", "COV_ErrY",
        "COV_ErrZ", "COV_Err_XYZ")))
    e["cov"] = [int(round(float(d.get(k) or "nan") * 1000 * (1000 / w.ucf) ** 0)) if
                np.isfinite(float(d.get(k) or "nan")) else -1
                for k in ("COV_ErrX", "COV_ErrY", "COV_ErrZ")]
    return e


def build(job):
    from checks._world import World
    drv.set_base(job.get("base", "2021-03-01"))
    return World(job["names"], n=tuple(job["n"]), spacing=job["spacing"], vp=job["vp"],
                 vs=job["vp"] / 1.7, sr=job["sr"], phases=job["phases"], units=job["units"])


def onsets_of(job, w, events):
    """Integer log onsets per column over the whole span; bumps that peak at a chosen node and
    sample for each event that asks for one."""
    sr = job["sr"]
    ts = [e["t"] for e in events] or [0]
    pad = 4 * job["mw"] + 40 * sr + 600
    lo, hi = min(ts) - pad, max(ts) + pad
    rng = np.random.default_rng(job["seed"])
    on = {c: rng.choice(job.get("noise", [0, 0, 0, 1, 1, 2]), size=hi - lo) for c in w.cols}
    for e in events:
        if e.get("node") is None:
            continue
        for j, c in enumerate(w.cols):
            k = e["t"] + e["off"] + int(w.tts[e["node"]][j]) - lo
            if 0 <= k < hi - lo:
                on[c][k] = 3
                for dk, v in ((-1, 2), (1, 2)):
                    on[c][k + dk] = max(on[c][k + dk], v)
    return on, lo, hi


def order_of(job, w, r):
    order = list(w.cols)
    if job["order"] == "phase":
        order = [f"{s}_{p}" for p in w.phases for s in w.names]
    elif job["order"] == "shuffled":
        r.shuffle(order)
    return order


def scan_of(job, w, rd, hook, value, avail, order, **kw):
    from checks._world import Archive, onset_class
    from quakemigrate.signal import QuakeScan
    from quakemigrate.signal.pickers import GaussianPicker
    ons = onset_class()(w, value, avail, order, pre=job.get("pre", 0.4))
    pk = GaussianPicker(onset=ons, plot_picks=False)
    return QuakeScan(Archive(w, hook), w.lut, ons, rd, job["run"], run_subname=job["sub"],
                     log=False, picker=pk, marginal_window=job["mw"] / job["sr"],
                     threads=job.get("threads", 1), plot_event_summary=False, **kw)


def run(job, wd):
    """Several locate calls on the same triggered events -> one case."""
    import quakemigrate.util as util
    from quakemigrate.io.coalescence import read_coalescence
    from checks._world import exp_table
    w = build(job)
    r = random.Random(job["seed"] + 1)
    sr, mw, per = job["sr"], job["mw"], 86400 * job["sr"]
    evs = []
    for e in job["events"]:
        t = drv.DAY0 + e["t"] / sr
        x, y, z = w.nodes[e.get("node") or 0]
        evs.append({**e, "time": t, "uid": uid_of(t), "x": x, "y": y, "z": z})
    by_uid = {e["uid"]: e for e in evs}
    by_t = {e["t"]: i for i, e in enumerate(evs)}
    assert len(by_uid) == len(evs) == len(by_t)
    if any(e["fate"] != "gap" for e in evs):
        on, lo, hi = onsets_of(job, w, evs)
    else:
        on, lo, hi = {c: np.zeros(0, int) for c in w.cols}, 0, 0
    order = order_of(job, w, r)
    for e in evs:
        if e["fate"] == "ok":
            k = r.choice(job["nav"])
            e["av"] = sorted(r.sample(w.cols, k), key=w.cols.index)
        else:
            e["av"] = []
    n_of = lambda u: max(1, len(by_uid[u]["av"])) if u in by_uid else 1  # noqa: E731
    name = job["run"].replace(".", "_")
    fname = name + (f"_{job['sub'].replace('.', '_')}" if job["sub"] else "")
    ev, tags = [], set()
    for ci, call in enumerate(job["calls"]):
        rd = os.path.join(wd, f"r{ci}")
        run_dir = os.path.join(rd, name)
        sub = job["sub"].replace(".", "_")
        present = [e for e in evs if e["t"] // per not in call.get("gone", [])]
        write_trigger(run_dir, fname, sub, present, job["extra"], call.get("empty_days", ()),
                      job.get("style", ""))
        # what must not be read: another run's, another sub-run's, another stage's events
        decoy = []
        for e in evs[:2]:
            t = e["time"] + 7.003
            decoy.append({**e, "time": t, "uid": uid_of(t)})
        if job["decoys"] and decoy:
            write_trigger(run_dir, "other", sub, decoy)
            write_trigger(run_dir, fname, "othersub", decoy)
            write_trigger(os.path.join(rd, "run2"), "run2", "", decoy)
        cur = [None]
        reads = []

        def hook(a, b, pre, post):
            # the event whose scanned window is inside the window asked for
            m = [e for e in evs if a <= e["t"] - 2 * mw and e["t"] + 2 * mw <= b]
            mid = (a + b) / 2
            e = min(m, key=lambda x: abs(x["t"] - mid), default=None)
            # the same pads on both sides of every event: identify by the window's start
            if m and len(m) > 1:
                e = min(m, key=lambda x: abs((x["t"] - 2 * mw - a) - pads[0]))
            cur[0] = e
            reads.append(dict(e="read", call=ci, i=by_t[e["t"]] + 1 if e else 0, first=a, last=b))
            f = e["fate"] if e else "ok"
            if f == "gap":
                raise util.DataGapException
            if f == "empty":
                raise util.ArchiveEmptyException

        def value(col, a, b):
            return on[col][a - lo:b + 1 - lo]

        def avail(a, b):
            return cur[0]["av"] if cur[0] else []

        scan = scan_of(job, w, rd, hook, value, avail, order,
                       write_coalescence=job["maps"], write_marginal_coalescence=job["maps"])
        pads = [int(round(scan.onset.pad(4 * mw / sr)[0] * sr))]
        kw, want = {}, None
        if call["how"] == "span":
            kw = dict(starttime=str(drv.DAY0 + call["a"] / sr), endtime=str(drv.DAY0 + call["b"] / sr))
        elif call["how"] == "start":
            kw = dict(starttime=str(drv.DAY0 + call["a"] / sr))
        elif call["how"] == "end":
            kw = dict(endtime=str(drv.DAY0 + call["b"] / sr))
        elif call["how"] == "file":
            pick = [evs[i] for i in call["idx"]]
            p = os.path.join(rd, "my_events.csv")
            trigger_csv(p, pick, job["extra"], job.get("style", ""))
            kw = dict(trigger_file=p)
            if call.get("times"):
                kw.update(starttime=str(drv.DAY0 + call["a"] / sr),
                          endtime=str(drv.DAY0 + call["b"] / sr))
        raised = ""
        try:
            scan.locate(**kw)
        except (util.NoTriggerFilesFound, util.TimeSpanException, RuntimeError) as x:
            raised = type(x).__name__
        ev.append(dict(e="call", call=ci, how=call["how"], a=call.get("a", 0), b=call.get("b", 0),
                       idx=[i + 1 for i in call.get("idx", [])],
                       files=sorted({e["t"] // per for e in present} | set(call.get("empty_days", ())))))
        ev += reads
        out, stray = outputs(os.path.join(run_dir, "locate", sub) if sub else
                             os.path.join(run_dir, "locate"))
        for u, p in out["events"].items():
            x = event_record(w, p, n_of, sr)
            x.update(e="event", call=ci, i=next((i + 1 for i, q in enumerate(evs) if q["uid"] == u), 0))
            pk = out["picks"].get(u)
            x["pick"] = digest(pk) if pk else ""
            ev.append(x)
        if job["maps"]:
            for kind, k in (("coalescence_maps", "map"), ("marginalised_coalescence_maps", "marg")):
                for u, p in out[kind].items():
                    m = read_coalescence(str(p))
                    i = next((i + 1 for i, q in enumerate(evs) if q["uid"] == u), 0)
                    x = dict(e=k, call=ci, i=i, shape=list(m.shape), nodes=[int(q) for q in w.n], val=[])
                    if tuple(m.shape[:3]) == tuple(w.n) and np.isfinite(m).all():
                        f = m.reshape((-1,) + m.shape[3:])
                        if k == "map":
                            f = np.rint(1000 * n_of(u) * np.log(np.maximum(f, 1e-9)))
                        else:
                            f = np.rint(1e4 * f)
                        x["val"] = f.astype(int).tolist()
                    ev.append(x)
        if job.get("threads", 1) > 1:
            tags.add("threads")
        ev.append(dict(e="end", call=ci, raised=raised, uids=sorted(out["events"]),
                       picks=sorted(out["picks"]), stray=stray,
                       maps=sorted(out["coalescence_maps"]) if job["maps"] else [],
                       margs=sorted(out["marginalised_coalescence_maps"]) if job["maps"] else []))
        tags.add("how-" + call["how"])
        if raised:
            tags.add("raised-" + raised)
        if call["how"] == "span":
            if call["b"] % per == 0:
                tags.add("ends-at-midnight")
            if call["b"] // per > call["a"] // per:
                tags.add("multi-day")
            if any(e["t"] in (call["a"], call["b"]) for e in evs):
                tags.add("event-at-bound")
        if call.get("gone"):
            tags.add("missing-day-file")
        if call["how"] == "file" and len(call["idx"]) == 1:
            tags.add("alone")
        shutil.rmtree(rd, ignore_errors=True)
    for e in evs:
        tags.add("fate-" + e["fate"])
        if e["fate"] == "ok" and e.get("node") is not None:
            tags.add("off-inside" if abs(e["off"]) < mw else "off-edge" if abs(e["off"]) == mw
                     else "off-outside")
        if 0 < len(e["av"]) < len(w.cols):
            tags.add("partial-availability")
    if min(w.n) >= 5:
        tags.add("spline")
    if job.get("style"):
        tags.add("layout-" + job["style"])
    return [dict(
        key=job["name"], module="LocateTrace", day=per, mw=mw, n=[int(x) for x in w.n],
        ofs=lo, names=w.cols, on=[on[c].tolist() for c in w.cols], tt=w.tts.tolist(),
        ex=exp_table(len(w.cols), 3 * len(w.cols)), maps=bool(job["maps"]),
        chk=job["chk"], style=job.get("style", ""),
        spacing=[int(round(x)) for x in np.broadcast_to(
            np.asarray(w.spec["node_spacing"], float), 3) * 1000],
        evs=[dict(t=e["t"], uid=e["uid"], fate=e["fate"],
                  av=[w.cols.index(x) + 1 for x in e["av"]], trig=e["trig"], coa=e["coa"],
                  norm=e["norm"]) for e in evs],
        ev=ev, note=dict(tags=sorted(tags)))]


def run_chain(job, wd):
    """detect, trigger and locate on the same onsets -> one case."""
    from checks._world import exp_table, read_files
    from quakemigrate.signal import Trigger
    w = build(job)
    r = random.Random(job["seed"] + 1)
    sr, mw, per = job["sr"], job["mw"], 86400 * job["sr"]
    on, lo, hi = onsets_of(job, w, job["events"])
    av = sorted(r.sample(w.cols, r.choice(job["nav"])), key=w.cols.index)
    no = len(av)
    rd = os.path.join(wd, "r")
    name, sub = job["run"].replace(".", "_"), job["sub"].replace(".", "_")
    run_dir = os.path.join(rd, name)
    reads, mode = [], ["detect"]

    def hook(a, b, pre, post):
        reads.append((mode[0], a, b))

    def value(col, a, b):
        return on[col][a - lo:b + 1 - lo]

    order = order_of(job, w, r)
    a, b = job["a"], job["b"]
    scan = scan_of({**job, "sub": ""}, w, rd, hook, value, lambda x, y: av, order,
                   timestep=job["ts"] / sr)
    scan.detect(str(drv.DAY0 + a / sr), str(drv.DAY0 + b / sr))
    rec = {}
    for f in read_files(run_dir, sr)[0]:
        d = f["data"]
        for j in range(f["cnt"]):
            rec[f["first"] + j] = [int(d[k][j]) for k in ("COA", "COA_N", "X", "Y", "Z")]
    trig = Trigger(w.lut, rd, job["run"], trigger_name=job["sub"], static_threshold=job["thr"],
                   marginal_window=mw / sr, min_event_interval=max(2 * mw, job["mei"]) / sr,
                   pad=job["pad"], plot_trigger_summary=False,
                   normalise_coalescence=job["norm"])
    trig.trigger(str(drv.DAY0 + a / sr), str(drv.DAY0 + b / sr))
    evs, links = [], []
    for p in sorted(pathlib.Path(run_dir, "trigger", sub).rglob("*_TriggeredEvents.csv")):
        for row in drv.rows_of(p)[1]:
            t = (UTCDateTime(row["CoaTime"]) - drv.DAY0) * sr
            ok = abs(t - round(t)) < 2e-3
            evs.append(dict(t=int(round(t)) if ok else -1, uid=row["EventID"], fate="ok", av=av,
                            trig=i5f(row["TRIG_COA"]), coa=i5f(row["COA"]), norm=i5f(row["COA_NORM"]),
                            node=w.node_of(*(float(row[q]) for q in ("COA_X", "COA_Y", "COA_Z")))))
    evs.sort(key=lambda e: e["t"])
    mode[0] = "locate"
    scan2 = scan if job["same"] and not job["sub"] else scan_of(
        job, w, rd, hook, value, lambda x, y: av, order, write_coalescence=True)
    scan2.write_coalescence = True
    scan2.locate(str(drv.DAY0 + a / sr), str(drv.DAY0 + b / sr))
    n_of = lambda u: no  # noqa: E731
    ev = [dict(e="call", call=0, how="file", a=0, b=0, idx=list(range(1, len(evs) + 1)), files=[])]
    k = 0
    for m, x, y in reads:
        if m == "detect":
            ev.append(dict(e="dread", first=x, last=y, t=a + k * job["ts"], ts=job["ts"]))
            k += 1
            continue
        pad = int(round(scan2.onset.pad(4 * mw / sr)[0] * sr))
        i = next((j + 1 for j, e in enumerate(evs) if e["t"] - 2 * mw - pad == x), 0)
        ev.append(dict(e="read", call=0, i=i, first=x, last=y))
    out, stray = outputs(os.path.join(run_dir, "locate", sub) if sub else
                         os.path.join(run_dir, "locate"))
    idx = {e["uid"]: j + 1 for j, e in enumerate(evs)}
    for u, p in out["events"].items():
        x = event_record(w, p, n_of, sr)
        pk = out["picks"].get(u)
        x.update(e="event", call=0, i=idx.get(u, 0), pick=digest(pk) if pk else "")
        ev.append(x)
    for u, p in out["coalescence_maps"].items():
        m = np.load(p)
        i = idx.get(u, 0)
        x = dict(e="agree", i=i, d=[], l=[], t=0, dn=[], ln=[])
        if i:
            t0 = evs[i - 1]["t"] - 2 * mw
            f = m.reshape(-1, m.shape[-1])
            for j in range(f.shape[1]):
                q = rec.get(t0 + j)
                if q is None or q[0] <= 0:
                    continue
                # in 1e-5 of the coalescence itself, relative to its size
                x["d"].append(int(round(1e6 * np.log(q[0] / 1e5))))
                x["l"].append(int(round(1e6 * np.log(f[:, j].max()))))
                x["dn"].append(int(round(1e5 * np.log(q[1] / 1e5))))
                x["ln"].append(int(round(1e5 * np.log(f[:, j].max() / f[:, j].mean()))))
            x["n"] = int(sum(a <= t0 + j < b for j in range(4 * mw + 1)))
        ev.append(x)
    for j, e in enumerate(evs):
        ev.append(dict(e="link", i=j + 1, node=e["node"], norm=bool(job["norm"])))
    ev.append(dict(e="end", call=0, raised="", uids=sorted(out["events"]), picks=sorted(out["picks"]),
                   stray=stray, maps=sorted(out["coalescence_maps"]), margs=[]))
    tags = {"chain"}
    tags.add("several-events" if len(evs) > 1 else "one-event" if evs else "no-event")
    if a // per != (b - 1) // per:
        tags.add("straddles-midnight")
    if no < len(w.cols):
        tags.add("partial-availability")
    if job["norm"]:
        tags.add("normalised")
    if scan2 is scan:
        tags.add("same-object")
    shutil.rmtree(rd, ignore_errors=True)
    return [dict(
        key=job["name"], module="LocateTrace", day=per, mw=mw, n=[int(x) for x in w.n],
        ofs=lo, names=w.cols, on=[on[c].tolist() for c in w.cols], tt=w.tts.tolist(),
        ex=exp_table(len(w.cols), 3 * len(w.cols)), maps=False, chk="agree", style="",
        spacing=[int(round(x)) for x in np.broadcast_to(
            np.asarray(w.spec["node_spacing"], float), 3) * 1000],
        evs=[dict(t=e["t"], uid=e["uid"], fate="ok", av=[w.cols.index(x) + 1 for x in e["av"]],
                  trig=e["trig"], coa=e["coa"], norm=e["norm"]) for e in evs],
        ev=ev, note=dict(tags=sorted(tags)))]


# ---- job generators -------------------------------------------------------------------

def _base(r, name, **kw):
    j = dict(seed=r.randrange(1 << 30), name=name, run=r.choice(["run", "run", "a.b", "x_1"]),
             sub=r.choice(["", "", "s1", "s.2"]), names=r.choice([["AA", "BB"], ["ST1", "B", "CC"], ["AA"]]),
             phases=r.choice([["P", "S"], ["P", "S"], ["P"], ["S"]]), units=r.choice(["km", "m"]),
             n=r.choice([[3, 2, 2], [2, 3, 1], [3, 3, 3], [4, 2, 2]]), spacing=r.choice([0.5, 1.0]),
             vp=r.choice([3.0, 5.0]), sr=r.choice([5, 10, 20, 5, 10, 20, 8, 16, 30, 3]),
             order=r.choice(
                 ["station", "phase", "shuffled"]), threads=r.choice([1, 1, 3]),
             pre=r.choice([0.2, 0.4, 1.0]), base=r.choice(["2021-03-01", "2019-12-31", "2020-02-28"]),
             extra=r.random() < 0.3, decoys=r.random() < 0.5, maps=False,
             chk="set")
    j["mw"] = r.choice([1, 2, 3, j["sr"] // 2, j["sr"]])
    j["nav"] = [len(j["names"]) * len(j["phases"])]
    j.update(kw)
    return j


def _ev(r, t, nodes, mw, fate="ok", off=None, node=True):
    return dict(t=t, fate=fate, node=r.randrange(nodes) if node else None,
                off=r.choice([0, 0, 1, -1, mw - 1, 1 - mw]) if off is None else off,
                trig=r.randint(60000, 2500000), coa=r.randint(60000, 2500000),
                norm=r.randint(60000, 900000))


def select_jobs(r, n):
    """Q14: spans over several day files, bounds on events, files missing; nothing is usable."""
    out = []
    for _ in range(n):
        j = _base(r, "select", n=[2, 1, 1], names=["AA"], phases=["P"], nav=[1])
        per = 86400 * j["sr"]
        ts = set()
        for d in range(r.choice([1, 2, 3])):
            for _ in range(r.randint(0, 4)):
                ts.add(d * per + r.choice([0, 1, per - 1, per // 2, r.randrange(per)]))
        ts = sorted(ts) or [per // 3]
        j["events"] = [_ev(r, t, 2, j["mw"], fate="gap") for t in ts]
        calls = []
        for _ in range(r.randint(5, 8)):
            how = r.choice(["span"] * 7 + ["file", "file", "start", "end", "none"])
            c = dict(how=how)
            m = [0, per, 2 * per, 3 * per, per - 1, per // 2, r.randrange(3 * per), r.choice(ts),
                 r.choice(ts) + 1, max(0, r.choice(ts) - 1)]
            c["a"], c["b"] = sorted((r.choice(m), r.choice(m)))
            if how == "span" and r.random() < 0.1:
                c["a"], c["b"] = c["b"], c["a"]
            if r.random() < 0.3:
                c["gone"] = r.sample(range(3), r.randint(1, 2))
            if r.random() < 0.2:
                c["empty_days"] = [d for d in range(3) if not any(t // per == d for t in ts)]
            if how == "file":
                c["idx"] = r.sample(range(len(ts)), r.randint(1, len(ts)))
                c["times"] = r.random() < 0.3
            calls.append(c)
        j["calls"] = calls
        out.append(j)
    return out


def batch_jobs(r, n):
    """Q15: the same events together, in other orders and alone; some unusable or outside."""
    out = []
    for i in range(n):
        j = _base(r, "batch", maps=i % 4 == 0)
        nodes = int(np.prod(j["n"]))
        mw, sr = j["mw"], j["sr"]
        no = j["nav"][0]
        j["nav"] = list(range(1, no + 1)) if r.random() < 0.5 else [no]
        t0 = r.choice([10 * sr, 86400 * sr - 20 * sr, 40000 * sr])
        k = r.randint(2, 5)
        evs, t = [], t0
        for m in range(k):
            fate = r.choice(["ok"] * 5 + list(FAULTS))
            off = r.choice([0, 0, 1, -1, mw - 1, 1 - mw, mw, -mw, mw + 1, -mw - 1, 2 * mw, -2 * mw])
            off = max(-2 * mw, min(2 * mw, off))
            evs.append(_ev(r, t, nodes, mw, fate=fate, off=off, node=r.random() < 0.85))
            t += r.choice([4 * mw + 1, 30 * sr, 6 * mw + 3 * sr, 61 * sr])
        j["events"] = evs
        per = 86400 * sr
        calls = [dict(how="span", a=t0, b=t)]
        idx = list(range(k))
        calls.append(dict(how="file", idx=idx[::-1]))
        r.shuffle(idx)
        calls += [dict(how="file", idx=[m]) for m in idx]
        j["calls"] = calls
        out.append(j)
    return out


def peak_jobs(r, n):
    """Q16: one event in detail, with the coalescence maps."""
    out = []
    for i in range(n):
        j = _base(r, "peak", maps=True, chk="peak")
        if i % 3 == 0:
            j.update(n=r.choice([[5, 5, 5], [6, 5, 5], [5, 6, 7]]), names=["AA", "BB", "CC"],
                     sr=5, mw=r.choice([1, 2, 3]), spacing=r.choice([1.0, 2.0]), vp=3.0,
                     phases=["P", "S"])
            j["nav"] = [6]
        if i % 5 == 1:       # marginal windows whose float product with the rate is not whole
            j["sr"], j["mw"] = r.choice([(25, 29), (50, 29), (50, 57), (25, 57), (100, 29)])
            j.update(n=[2, 1, 2], names=["AA"], phases=r.choice([["P"], ["P", "S"]]))
            j["nav"] = [len(j["phases"])]
        nodes = int(np.prod(j["n"]))
        mw = j["mw"]
        no = j["nav"][0]
        if r.random() < 0.5:
            j["nav"] = list(range(1, no + 1))
        t = r.choice([86400 * j["sr"] - 1, 86400 * j["sr"], 1000 * j["sr"] + r.randrange(50)])
        j["events"] = [_ev(r, t, nodes, mw, node=r.random() < 0.8)]
        j["noise"] = r.choice([[0, 0, 0, 1, 1, 2], [0, 1, 2, 3], [0, 0, 0, 0, 0, 1], [1]])
        j["calls"] = [dict(how="file", idx=[0])]
        j["style"] = random.Random(j["seed"]).choice(["", "", "", "old", "older"])
        out.append(j)
    return out


def chain_jobs(r, n):
    """Q17: the three stages on the same onsets."""
    out = []
    for i in range(n):
        j = _base(r, "chain", extra=False)
        if r.random() < 0.4:    # where seconds lie between the phases
            j["spacing"] = r.choice([6.0, 9.0])
        sr, mw = j["sr"], j["mw"]
        no = j["nav"][0]
        j["nav"] = [no] if r.random() < 0.5 else list(range(1, no + 1))
        L = r.randint(10 * sr, 25 * sr) + 8 * mw
        a = r.choice([86400 * sr - L // 2, 500 * sr, 86400 * sr - L, 86400 * sr])
        nodes = int(np.prod(j["n"]))
        j["events"] = [_ev(r, a + r.randint(2 * mw, L - 2 * mw), nodes, mw, off=0)
                       for _ in range(r.randint(1, 3))]
        j.update(a=a, b=a + L, ts=r.choice([L, max(1, L // 2), max(1, L // 3), 2 * sr + 1]),
                 thr=r.choice([4.0, 6.0]), mei=r.choice([2 * mw, 3 * mw, 5 * mw]), norm=False,
                 pad=r.choice([0.0, 5.0]), same=r.random() < 0.5)
        if r.random() < 0.25:
            j.update(norm=True, thr=2.0)
        out.append(j)
    return out
