"""Driving Trigger.trigger on prescribed coalescence."""
import os

import numpy as np
from obspy import UTCDateTime

from vlib import drv

BASE_ID = None


def day_ids(n0, n1):
    out = []
    for d in range(n0, n1 + 1):
        t = drv.DAY0 + 86400 * d
        out.append(dict(d=d, id=t.year * 10000 + t.month * 100 + t.day))
    return out


def z_unit(units):
    return 1e6 if units == "km" else 1e3


def row(r, units):
    t, sub = drv.ms(UTCDateTime(r["CoaTime"]))
    ids = r["EventID"]
    ok = ids.isdigit() and len(ids) == 17
    o = dict(t=t, sub=sub, trig=drv.i5(r["TRIG_COA"]), c=drv.i5(r["COA"]),
             n=drv.i5(r["COA_NORM"]), x=int(round(float(r["COA_X"]) * 1e3)),
             y=int(round(float(r["COA_Y"]) * 1e3)), z=int(round(float(r["COA_Z"]) * 1e3)),
             idday=int(ids[:8]) if ok else -1, idms=int(ids[8:]) if ok else -1)
    if "MinTime" in r:
        o["min"], _ = drv.ms(UTCDateTime(r["MinTime"]))
        o["max"], _ = drv.ms(UTCDateTime(r["MaxTime"]))
    return o


def fname(runname, sub, day):
    t = drv.DAY0 + 86400 * day
    nm = runname if not sub else f"{runname}_{sub}"
    return f"{nm}_{t.year}_{t.julday:03d}_TriggeredEvents.csv"


def observe(wd, runname, sub, days, units):
    d = os.path.join(wd, runname, "trigger", sub, "events")
    files, seen = [], set()
    for k in days:
        fn = fname(runname, sub, k)
        seen.add(fn)
        p = os.path.join(d, fn)
        if not os.path.exists(p):
            files.append(dict(file=k, exists=False, cols=[], rows=[]))
            continue
        cols, rows = drv.rows_of(p)
        files.append(dict(file=k, exists=True, cols=cols,
                          rows=[row(r, units) for r in rows]))
    stray = [f for f in (os.listdir(d) if os.path.isdir(d) else []) if f not in seen]
    return files, stray


def dense(q, i0, i1, quiet=0.25):
    """Sample records -> contiguous arrays over [i0, i1)."""
    n = i1 - i0
    c = np.full(n, quiet)
    nn = np.full(n, quiet)
    x = np.zeros(n)
    y = np.zeros(n)
    z = np.zeros(n)
    for s in q:
        k = s["i"] - i0
        c[k], nn[k] = s["c"] / 4, s["n"] / 4
        x[k], y[k], z[k] = s["x"] / 1e3, s["y"] / 1e3, s["z"] / 1e3
    return i0, c, nn, x, y, z


def make_trigger(lut, wd, runname, p, **kw):
    from quakemigrate.signal import Trigger
    args = dict(threshold_method=p["method"], marginal_window=p["mw"] / 1000,
                min_event_interval=p["mei"] / 1000, normalise_coalescence=p["norm"],
                pad=p.get("pad", 0) / 1000, plot_trigger_summary=False,
                write_event_time_windows=p["win_out"])
    if p["method"] == "static":
        args["static_threshold"] = p["thr"] / 4
    elif p["method"] == "mad":
        args["mad_window_length"] = p["wlen"]
        args["mad_multiplier"] = p["mult"] / 2
    else:
        args["median_window_length"] = p["wlen"]
        args["median_multiplier"] = p["mult"] / 2
    args.update(kw)
    return Trigger(lut, run_path=wd, run_name=runname, **args)


def run_snippets(job, wd, i_start=None):
    """One Trigger call over many isolated traces; one case per trace."""
    p = dict(job["p"], dt=job["dt"], off=job.get("off", 0))
    p.setdefault("pad", 0)
    dt = p["dt"]
    guard = (2 * (p["mei"] + p["mw"])) // dt + 8
    pos = job.get("i0", 50000 // dt * 7 + 3)
    first = pos
    lay, rng = [], np.random.RandomState(len(job["tr"]) * 31 + dt)
    for k, (c, n) in enumerate(job["tr"]):
        if k:
            pos += guard
        q = [dict(i=pos + j, c=int(c[j]), n=int(n[j]), x=int(rng.randint(-180000, 180000)),
                  y=int(rng.randint(-90000, 90000)), z=int(rng.randint(-2000, 50000)))
             for j in range(len(c))]
        lay.append(q)
        pos += len(c)
    allq = [s for q in lay for s in q]
    sr = 1000 / dt
    drv.write_day_files(f"{wd}/run", [dense(allq, first, pos)], sr, zfac=z_unit(job["units"]),
                        off=p["off"])
    per = 86400000 // dt
    days = list(range(0, (pos - 1) // per + 1))
    lut = drv.mklut(units=job["units"])
    trig = make_trigger(lut, wd, "run", p)
    lo, hi = max(0, first * dt - 5000), pos * dt + 5000
    trig.trigger(drv.DAY0 + lo / 1000, drv.DAY0 + hi / 1000)
    files, stray = observe(wd, "run", "", days, job["units"])
    edges = [0] + [(lay[k][0]["i"] - guard // 2) * dt for k in range(1, len(lay))] + [2 ** 31 - 1]
    cases = []
    for k, q in enumerate(lay):
        fs = []
        for f in files:
            fs.append(dict(f, file=f"/{f['file']}",
                           rows=[r for r in f["rows"] if edges[k] <= r["t"] < edges[k + 1]]))
        nrows = sum(len(f["rows"]) for f in fs)
        vals = [s["n"] if p["norm"] else s["c"] for s in q]
        on = [v >= p["thr"] for v in vals]
        runs = sum(1 for j in range(len(on)) if on[j] and (j == 0 or not on[j - 1]))
        tags = ["event" if nrows else "no-event", job["units"]]
        if runs > nrows:
            tags.append("merged")
        if nrows > 1:
            tags.append("two-events")
        if p["norm"]:
            tags.append("normalised")
        if p["thr"] in vals:
            tags.append("at-threshold")
        if len(set(v for v in vals if v > 1)) < len([v for v in vals if v > 1]):
            tags.append("tie")
        if k == 0 and on[0]:
            tags.append("data-start")
        if k == len(lay) - 1 and on[-1]:
            tags.append("data-end")
        cases.append(dict(
            key=f"{job['kind']}-{k}", q=q, days=day_ids(0, days[-1]),
            files=[f"/{d}" for d in days],
            ev=[dict(e="trigger", sub="", p=p, lo=lo, hi=hi, region=[], raised="",
                     stray=stray, files=fs, whole=False)], data=[[first, pos - 1]],
            note=dict(tags=tags)))
    return cases


def run_dense(u, wd):
    """One Trigger call over one short gapless trace, all of whose samples matter."""
    p, dt, n = dict(u["p"]), u["dt"], u["n"]
    rng = np.random.RandomState(n)
    q = [dict(i=u["i0"] + j, c=u["c"][j], n=u["nn"][j], x=int(rng.randint(-180000, 180000)),
              y=int(rng.randint(-90000, 90000)), z=int(rng.randint(-2000, 50000)))
         for j in range(n)]
    drv.write_day_files(f"{wd}/run", [dense(q, u["i0"], u["i0"] + n)], 1000 / dt)
    lut = drv.mklut()
    trig = make_trigger(lut, wd, "run", p)
    lo, hi = u["i0"] * dt, (u["i0"] + n - 1) * dt
    trig.trigger(drv.DAY0 + lo / 1000, drv.DAY0 + hi / 1000)
    files, stray = observe(wd, "run", "", [0], "km")
    fs = [dict(f, file="/0") for f in files]
    nrows = len(fs[0]["rows"])
    w = p["win"]
    tags = [p["method"], "event" if nrows else "no-event"]
    if p["norm"]:
        tags.append("normalised")
    if p["method"] != "static":
        tags.append("window-longer-than-data" if w > n else
                    "partial-window" if n % w else "exact-windows")
        v = u["nn"] if p["norm"] else u["c"]
        for a in range(0, n, w):
            o = v[a:a + w]
            m = float(np.median(o))
            t = m * p["mult"] / 2 if p["method"] == "median_ratio" else None
            if t in o:
                tags.append("on-threshold")
                break
    elif p["thr"] in (u["nn"] if p["norm"] else u["c"]):
        tags.append("on-threshold")
    return [dict(key=f"dense-{u['k']}", q=q, days=day_ids(0, 0), files=["/0"],
                 ev=[dict(e="trigger", sub="", p={k: v for k, v in p.items() if k != "wlen"},
                          lo=lo, hi=hi, region=[], raised="", stray=stray,
                          files=fs, whole=False)],
                 data=[[u["i0"], u["i0"] + n - 1]],
                 note=dict(tags=tags))]


def run_history(job, wd):
    """A history of Trigger calls on one run directory; one case."""
    drv.set_base(job["base"])
    dt, off = job["dt"], job.get("off", 0)
    q = job["q"]
    segs = job["data"]
    drv.write_day_files(f"{wd}/run", [dense([s for s in q if a <= s["i"] <= b], a, b + 1)
                                      for a, b in segs], 1000 / dt, off=off)
    lut = drv.mklut()
    d1 = max(b for _, b in segs) * dt // 86400000 + 1
    days = list(range(-1, d1 + 1))
    subs = sorted({cl["sub"] for cl in job["calls"]})
    ev, objs, tags = [], {}, set()
    for cl in job["calls"]:
        p = dict(cl["p"], dt=dt, off=off)
        kw = dict(trigger_name=cl["sub"]) if cl["sub"] else {}
        ok = (cl["obj"], cl["sub"])
        if cl["obj"] and ok in objs:
            trig = objs[ok]
            # same object, settings re-assigned
            for a, v in (("marginal_window", p["mw"] / 1000),
                         ("min_event_interval", p["mei"] / 1000),
                         ("normalise_coalescence", p["norm"]), ("pad", p["pad"] / 1000),
                         ("static_threshold", p["thr"] / 4),
                         ("write_event_time_windows", p["win_out"])):
                setattr(trig, a, v)
            tags.add("same-object")
        else:
            trig = objs[ok] = make_trigger(lut, wd, "run", p, **kw)
        raised = ""
        kw = {}
        if cl["region"]:
            kw["region"] = [v / 1000 for v in cl["region"]]
            tags.add("region")
        try:
            trig.trigger(str(drv.DAY0 + cl["lo"] / 1000), str(drv.DAY0 + cl["hi"] / 1000), **kw)
        except Exception as e:
            raised = type(e).__name__
            tags.add(raised)
        fs, stray = [], []
        for sub in subs:
            f, st = observe(wd, "run", sub, days, "km")
            stray += st
            for x in f:
                if len(x["rows"]) and x["file"] * 86400000 > cl["lo"]:
                    tags.add("event-on-later-day")
                fs.append(dict(x, sub=sub, day=x["file"], file=f"{sub}/{x['file']}"))
        ev.append(dict(e="trigger", sub=cl["sub"], p=p, lo=cl["lo"], hi=cl["hi"],
                       region=cl["region"], raised=raised, stray=stray, files=fs,
                       whole=cl.get("whole", False)))
        p.pop("wlen", None)
    if off:
        tags.add("offset-grid")
    return [dict(key=job["key"], q=q, data=segs, days=day_ids(-1, d1 + 1),
                 files=[f"{s}/{d}" for s in subs for d in days], ev=ev,
                 note=dict(tags=sorted(tags | set(job.get("tags", ())))))]
