"""Driving QuakeScan.detect on prescribed onsets."""
import csv
import os
import random
import shutil

import numpy as np
from obspy import UTCDateTime

from vlib import drv

FAULTS = ("gap", "empty", "none")


def records(w, f, n_of):
    """COA/COA_N/X/Y/Z of one file -> [log value, norm, node, zero?]."""
    d = f["data"]
    zf = 1e3 * w.ucf
    out = []
    for j in range(f["cnt"]):
        v = [int(d[k][j]) for k in ("COA", "COA_N", "X", "Y", "Z")]
        if not any(v):
            out.append([0, 0, 0, 1])
            continue
        n = n_of(f["first"] + j)
        lc = int(round(1000 * n * np.log(v[0] / 1e5))) if v[0] > 0 else -99999
        out.append([lc, int(round(v[1] / 100)), w.node_of(v[2] / 1e6, v[3] / 1e6, v[4] / zf), 0])
    return out


def runs(f):
    d = f["data"]["COA"]
    e = np.flatnonzero(np.diff(d)) + 1
    b = np.concatenate([[0], e, [len(d)]])
    out = []
    for i, j in zip(b[:-1], b[1:]):
        z = int(d[i] == 0)
        out.append([int(f["first"] + i), int(j - i),
                    0 if z else int(round(1000 * np.log(d[i] / 1e5))), z])
    return out


def table(path, per, sr, day=None):
    with open(path, newline="") as g:
        r = list(csv.reader(g))
    rows = []
    for x in r[1:]:
        t = (UTCDateTime(x[0]) - drv.DAY0) * sr
        rows.append(dict(at=int(round(t)) if abs(t - round(t)) < 1e-4 else -1,
                         val=[int(y) if y in ("0", "1") else -1 for y in x[1:]]))
    t = dict(cols=r[0][1:], rows=rows)
    if day is not None:
        t["day"] = day
    return t


def avail_tables(run_dir, per, sr):
    d = os.path.join(run_dir, "detect", "availability")
    out, stray = [], []
    for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        try:
            y, j, rest = fn.split("_")
            assert rest == "StationAvailability.csv" and len(j) == 3
            day = int(round((UTCDateTime(year=int(y), julday=int(j)) - drv.DAY0) / 86400))
        except Exception:
            stray.append(fn)
            continue
        out.append(table(os.path.join(d, fn), per, sr, day))
    return out, stray


def build(job):
    """A job's deterministic ingredients."""
    from checks._world import World
    r = random.Random(job["seed"])
    drv.set_base(job.get("base", "2021-03-01"))
    names = job["names"]
    phases = job["phases"]
    if job["long"]:
        w = World(names, n=(1, 1, 2), spacing=0.01, vp=5000.0, vs=3000.0, sr=job["sr"],
                  phases=phases, units=job["units"])
    else:
        w = World(names, n=tuple(job["n"]), spacing=job["spacing"], vp=job["vp"],
                  vs=job["vp"] / 1.7, sr=job["sr"], phases=phases, units=job["units"])
    return w, r


def run(job, wd):
    """One detect run (and, if asked, the same run again with another timestep) -> cases."""
    from checks._world import Archive, Killed, exp_table, onset_class, read_files
    from quakemigrate.io import Run, read_availability
    from quakemigrate.signal import QuakeScan
    import quakemigrate.util as util
    w, r = build(job)
    sr, start, end = job["sr"], job["start"], job["end"]
    per = 86400 * sr
    # prescribed onsets over a generous span
    lo, hi = start - 60 * sr - 400, end + 80 * sr + 1200
    rng = np.random.default_rng(job["seed"])
    on = {}
    if not job["long"]:
        for cn in w.cols:
            on[cn] = rng.choice([0, 0, 0, 1, 2, 3], size=hi - lo)
    order = list(w.cols)
    if job["order"] == "phase":
        order = [f"{s}_{p}" for p in w.phases for s in w.names]
    elif job["order"] == "shuffled":
        r.shuffle(order)
    cases = []
    for vi, var in enumerate(job["variants"]):
        ts, st0 = var["ts"], var.get("start", start)
        nst = -(-(end - st0) // ts)
        fate, av = [], []
        for i in range(nst + 2):
            # the fate of a step belongs to its time, so that variants can be compared
            fate.append(var["fate"][i] if i < len(var["fate"]) else "ok")
            if job["long"]:
                a = [w.cols[0]]
            else:
                k = r.choice(job["nav"])
                a = sorted(r.sample(w.cols, k), key=w.cols.index) if k else []
            if fate[-1] == "none":
                a = []
            if not a and fate[-1] == "ok":
                fate[-1] = "none"
            av.append(a)
        tag = f"v{vi}"
        rd = os.path.join(wd, tag)
        ev, tags = [], []
        cur = [-1]

        def disk():
            fs, stray, _ = read_files(os.path.join(rd, "run"), sr, detail=False)
            return [dict(day=f["day"], first=f["first"], cnt=f["cnt"]) for f in fs]

        def hook(a, b, pre, post):
            cur[0] += 1
            i = cur[0]
            ev.append(dict(e="read", first=a, last=b, disk=disk()))
            if var.get("kill") == i:
                raise Killed
            f = fate[i] if i < len(fate) else "ok"
            if f == "gap":
                raise util.DataGapException
            if f == "empty":
                raise util.ArchiveEmptyException

        def value(col, a, b):
            if job["long"]:
                t = np.arange(a, b + 1)
                return (t // job["block"]) % 5
            return on[col][a - lo:b + 1 - lo]

        def avail(a, b):
            return av[min(cur[0], len(av) - 1)]

        ons = onset_class()(w, value, avail, order, pre=job.get("pre", 0.4))
        scan = QuakeScan(Archive(w, hook), w.lut, ons, rd, "run", log=False,
                         timestep=ts / sr, threads=job.get("threads", 1),
                         continuous_scanmseed_write=var["cont"])
        killed = False
        try:
            # where samples are not on whole microseconds, an end rounded up is another step
            last = end if 10**6 % sr == 0 else end - 0.4
            scan.detect(str(drv.DAY0 + st0 / sr), str(drv.DAY0 + last / sr))
        except Killed:
            killed = True
        fs, stray, _ = read_files(os.path.join(rd, "run"), sr)
        files = []
        for f in fs:
            x = dict(day=f["day"], first=f["first"], cnt=f["cnt"], whole=f["whole"])
            if f["whole"]:
                if job["long"]:
                    x["runs"] = runs(f)
                else:
                    def n_of(t):
                        i = (t - st0) // ts
                        return len(av[i]) if 0 <= i < len(av) else 1
                    x["rec"] = records(w, f, n_of)
            files.append(x)
        tabs, s2 = avail_tables(os.path.join(rd, "run"), per, sr)
        if killed:
            ev.append(dict(e="killed", files=files))
            tags.append("killed")
        else:
            ev.append(dict(e="done", files=files, avail=tabs, stray=stray + s2))
            # reading the availability back
            days = sorted({t["day"] for t in tabs})
            if days:
                spans = {(days[0], days[-1]), (days[0] - 1, days[0]), (days[-1], days[-1] + 1),
                         (days[-1] + 1, days[-1] + 2)}
                for d0, d1 in sorted(spans):
                    e = dict(e="table", d0=d0, d1=d1, raised="", t=dict(cols=[], rows=[]))
                    try:
                        t = read_availability(Run(rd, "run"), drv.DAY0 + 86400 * d0 + 5,
                                              drv.DAY0 + 86400 * d1 + 86000)
                        p = os.path.join(wd, "t.csv")
                        t.to_csv(p)
                        e["t"] = table(p, per, sr)
                    except util.NoStationAvailabilityDataException as x:
                        e["raised"] = type(x).__name__
                    ev.append(e)
        if any(f in FAULTS for f in fate[:nst]):
            tags.append("faults")
            tags += [f"fault-{f}" for f in set(fate[:nst]) - {"ok"}]
            if all(f in FAULTS for f in fate[:nst]):
                tags.append("all-faulty")
        if len(files) > 1:
            tags.append("multi-day")
        if end % per == 0:
            tags.append("ends-at-midnight")
        if (end - st0) % ts:
            tags.append("not-divisible")
        if any((st0 + j * ts) // per != (st0 + (j + 1) * ts - 1) // per for j in range(nst)):
            tags.append("straddles-midnight")
        if var["cont"]:
            tags.append("continuous")
        if any(0 < len(a) < len(w.cols) for a in av[:nst]):
            tags.append("partial-availability")
        if job["order"] != "station":
            tags.append("reordered")
        if vi:
            tags.append("other-timestep")
        case = dict(key=f"{job['name']}-{tag}", module="DetectTrace", start=st0, end=end, ts=ts,
                    day=per, cont=var["cont"], long=job["long"], block=job.get("block", 1),
                    ofs=lo, names=w.cols, fate=fate,
                    av=[[w.cols.index(x) + 1 for x in a] for a in av], ev=ev,
                    note=dict(tags=sorted(set(tags))))
        if job["long"]:
            case.update(on=[], tt=[[0] * len(w.cols)], ex=[[1]])
        else:
            case.update(on=[on[cn].tolist() for cn in w.cols], tt=w.tts.tolist(),
                        ex=exp_table(len(w.cols), 3 * len(w.cols)))
        cases.append(case)
        shutil.rmtree(rd, ignore_errors=True)
    return cases


# ---- job generators -------------------------------------------------------------------

def _base(r, name, **kw):
    j = dict(kind="detect", seed=r.randrange(1 << 30), name=name, long=False,
             names=r.choice([["AA", "BB"], ["ST1", "B", "CC"], ["AA"]]),
             phases=r.choice([["P", "S"], ["P", "S"], ["P"], ["S"]]), units=r.choice(["km", "m"]),
             n=r.choice([[3, 2, 2], [2, 3, 1], [1, 1, 3], [4, 2, 2]]),
             spacing=r.choice([0.5, 1.0]), vp=r.choice([3.0, 5.0]), sr=r.choice([5, 10, 20, 5, 10, 20, 8, 16, 30, 3]),
             order=r.choice(["station", "phase", "shuffled"]), threads=r.choice([1, 1, 3]),
             pre=r.choice([0.0, 0.4, 1.0]),
             base=r.choice(["2021-03-01", "2019-12-31", "2020-02-28"]))
    no = len(j["names"]) * len(j["phases"])
    j["nav"] = [no]
    j.update(kw)
    return j


def _span(r, j, near_midnight=False, secs=(6, 14)):
    sr = j["sr"]
    per = 86400 * sr
    L = r.randint(secs[0] * sr, secs[1] * sr)
    if near_midnight:
        m = per * r.choice([1, 1, 2])
        start = m - r.choice([0, 1, 2, L // 2, L - 1, L, r.randint(1, L)])
    else:
        start = r.randint(0, per // 2)
    j.update(start=max(0, start), end=max(0, start) + L)
    return L


def span_jobs(r, n):
    """Q05: the same span under several timesteps and starts."""
    out = []
    for i in range(n):
        j = _base(r, "span")
        L = _span(r, j, near_midnight=i % 2 == 0)
        cand = [L, max(1, L // 2), max(1, L // 3), j["sr"], 2 * j["sr"] + 1, max(1, L - 1), L + 3]
        vs = []
        for k in range(3):
            v = dict(ts=cand[0] if k == 0 and i % 4 == 0 else r.choice(cand), cont=r.random() < 0.3,
                     fate=[])
            if k == 2:
                v["start"] = j["start"] + r.randint(1, max(1, L // 2))
            vs.append(v)
        j["variants"] = vs
        out.append(j)
    return out


def fault_jobs(r, n):
    """Q06: subsets of timesteps fail, in every way."""
    out = []
    for i in range(n):
        j = _base(r, "fault")
        L = _span(r, j, near_midnight=i % 3 == 0)
        ts = max(2, L // r.randint(2, 6))
        nst = -(-L // ts)
        vs = []
        for k in range(3):
            p = [0.3, 0.6, 1.0][k] if i % 5 == 0 else r.choice([0.2, 0.4, 0.7])
            fate = [r.choice(FAULTS) if r.random() < p else "ok" for _ in range(nst)]
            if k == 1 and nst > 1:
                fate = ["ok"] * nst
                fate[r.choice([0, nst - 1, r.randrange(nst)])] = r.choice(FAULTS)
            vs.append(dict(ts=ts, cont=r.random() < 0.3, fate=fate))
        j["variants"] = vs
        no = len(j["names"]) * len(j["phases"])
        j["nav"] = list(range(1, no + 1))
        out.append(j)
    return out


def migration_jobs(r, n):
    """Q01: partial availability in every order."""
    out = []
    for i in range(n):
        j = _base(r, "served")
        L = _span(r, j, secs=(3, 8))
        no = len(j["names"]) * len(j["phases"])
        j["nav"] = list(range(0 if i % 3 == 0 else 1, no + 1))
        j["variants"] = [dict(ts=max(2, L // r.randint(2, 5)), cont=False, fate=[])]
        out.append(j)
    return out


def long_jobs(r, n):
    """Q07: whole days, few samples a second, timesteps that do and do not meet midnight."""
    out = []
    for i in range(n):
        j = _base(r, "long", long=True, sr=1, names=["AA"], phases=["P"], nav=[1],
                  block=r.choice([977, 3600, 86400, 5000]), order="station")
        per = 86400
        ts = r.choice([1200, 3600, 3601, 7000, 21600, 43200, 86400, 50000, 86399, 10007])
        days = r.choice([1, 2, 3])
        start = r.choice([0, 0, 1, 40000, per - 1, per - ts % per, r.randrange(per)])
        end = r.choice([start + days * per, (start // per + days) * per,
                        start + days * per - r.randrange(1, ts), start + ts])
        if end <= start:
            end = start + ts
        if i % 3 == 0:                                     # end at midnight exactly divisible
            start, end = (0, days * per) if per % ts == 0 else (days * per - (days * per // ts) * ts,
                                                                days * per)
            if end <= start:
                start, end = 0, per
        nst = -(-(end - start) // ts)
        j.update(start=start, end=end)
        vs = []
        for k in range(2):
            fate = []
            if r.random() < 0.5:
                fate = [r.choice(FAULTS) if r.random() < 0.3 else "ok" for _ in range(nst)]
            v = dict(ts=ts, cont=bool(k) and nst < 60, fate=fate)
            if k and r.random() < 0.7:
                v["kill"] = r.randrange(nst)
            vs.append(v)
        j["variants"] = vs
        out.append(j)
    return out


def kill_jobs(r, n):
    """Q07: stopped between any two timesteps, with and without continuous writing."""
    out = []
    for i in range(n):
        j = _base(r, "kill")
        L = _span(r, j, near_midnight=True)
        ts = max(2, L // r.randint(2, 6))
        nst = -(-L // ts)
        j["variants"] = [dict(ts=ts, cont=c, fate=[], kill=r.randrange(nst))
                         for c in (True, True, False)]
        j["variants"].append(dict(ts=ts, cont=True, fate=[]))
        out.append(j)
    return out


def edge_jobs(r, n):
    """A span one sample longer than whole timesteps, ending at midnight."""
    out = []
    for i in range(n):
        j = _base(r, "edge")
        per = 86400 * j["sr"]
        ts = r.randint(2, 3 * j["sr"])
        k = r.randint(1, 4)
        d = r.choice([0, 1, 1, 2, -1])
        j.update(start=per - k * ts - d, end=per)
        j["variants"] = [dict(ts=ts, cont=False, fate=[])]
        out.append(j)
    return out
