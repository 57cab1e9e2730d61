"""Q28: availability records round-trip and describe the requested days."""
import os
import random

TRACE = "DetectTrace"
DESIGN = {"quick": [("DetectMC", "DetectMC.cfg")], "thorough": [("DetectMC", "DetectMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("availability written by QuakeScan.detect over several days, read from the files and "
        "through read_availability for spans inside, partly outside and outside the run; and "
        "write_availability/read_availability on random tables, some days in the earlier "
        "per-station layout, some days missing.")
TAGS = ["multi-day", "old-format", "mixed-format", "missing-day", "fractional-step", "faults"]
ASSUMPTIONS = ["station codes contain no underscore (SEED codes do not)"]


def jobs(tier, seed, gens):
    from checks import _detect as d
    r = random.Random(seed * 67867967 + 8)
    q = tier == "quick"
    js = d.fault_jobs(r, 24 if q else 160) + d.long_jobs(r, 8 if q else 60)
    for _ in range(24 if q else 200):
        js.append(dict(kind="table", seed=r.randrange(1 << 30)))
    return js


def run(job, wd):
    from checks import _detect
    if job["kind"] == "detect":
        return _detect.run(job, wd)
    import csv

    import pandas as pd
    from quakemigrate.io import Run, read_availability, write_availability
    import quakemigrate.util as util
    from vlib import drv
    r = random.Random(job["seed"])
    cases = []
    for rep in range(6):
        drv.set_base(r.choice(["2021-03-01", "2019-12-30", "2020-02-28", "2024-12-31"]))
        sr = 10
        per = 86400 * sr
        names = r.sample(["AA", "B1", "CCC", "DDDD", "E"], r.randint(1, 4))
        phases = ["P", "S"]
        ts = r.choice([6000, 36000, 36001, 216000, 5, per])
        n = r.randint(1, 40)
        start = r.randrange(0, per) if ts < per else 0
        if ts == 5:
            start = per - r.randint(0, 5 * n)
        cols = [f"{s}_{p}" for s in names for p in phases]
        if r.random() < 0.5:
            cols = [f"{s}_{p}" for p in phases for s in names]
        old = r.choice(["none", "none", "all", "some"])
        days = sorted({(start + i * ts) // per for i in range(n)})
        oldd = set(days) if old == "all" else (set(r.sample(days, max(1, len(days) // 2)))
                                              if old == "some" else set())
        av = []
        for i in range(n):
            if (start + i * ts) // per in oldd:
                have = [s for s in names if r.random() < 0.5]
                a = [c for c in cols if c.split("_")[0] in have]
            else:
                a = [c for c in cols if r.random() < 0.5]
            av.append(a)
        t = pd.DataFrame(0, index=[str(drv.DAY0 + (start + i * ts) / sr) for i in range(n)],
                         columns=cols)
        for i, a in enumerate(av):
            t.iloc[i] = [int(c in a) for c in cols]
        rd = os.path.join(wd, f"r{rep}")
        run_ = Run(rd, "run")
        write_availability(run_, t)
        p = os.path.join(rd, "run", "detect", "availability")
        ev, tags = [], []
        # written files first
        tabs, stray = _detect.avail_tables(os.path.join(rd, "run"), per, sr)
        tags += ["multi-day"] if len(days) > 1 else []
        ev.append(dict(e="written", n=n, avail=tabs, stray=stray))
        for d in oldd:
            d0 = drv.DAY0 + 86400 * d
            with open(os.path.join(p, f"{d0.year}_{d0.julday:03d}_StationAvailability.csv"), "w",
                      newline="") as f:
                wr = csv.writer(f)
                wr.writerow([""] + names)
                for i, a in enumerate(av):
                    if (start + i * ts) // per == d:
                        wr.writerow([str(drv.DAY0 + (start + i * ts) / sr)]
                                    + [int(f"{s}_P" in a) for s in names])
            tags.append("old-format" if old == "all" else "mixed-format")
        gone = set()
        if len(days) > 2 and r.random() < 0.5:
            g = days[r.randrange(1, len(days) - 1)]
            d0 = drv.DAY0 + 86400 * g
            os.unlink(os.path.join(p, f"{d0.year}_{d0.julday:03d}_StationAvailability.csv"))
            gone.add(g)
            tags.append("missing-day")
        spans = {(days[0], days[-1]), (days[0] - 1, days[0]), (days[-1] + 1, days[-1] + 2)}
        for _ in range(3):
            a = r.choice(days)
            spans.add((a, min(days[-1], a + r.randint(0, 2))))
        for d0, d1 in sorted(spans):
            x0 = drv.DAY0 + 86400 * d0 + r.choice([0, 1, 40000, 86399])
            x1 = drv.DAY0 + 86400 * d1 + r.choice([0.5, 1, 40000, 86399])
            if x1 < x0:
                x1 = x0
            e = dict(e="table", d0=d0, d1=d1, gone=sorted(gone), raised="",
                     t=dict(cols=[], rows=[]))
            try:
                got = read_availability(run_, x0, x1)
                q = os.path.join(wd, "t.csv")
                got.to_csv(q)
                e["t"] = _detect.table(q, per, sr)
            except util.NoStationAvailabilityDataException as x:
                e["raised"] = type(x).__name__
            ev.append(e)
        if (ts % sr):
            tags.append("fractional-step")
        cases.append(dict(key=f"table-{rep}", start=start, end=start + n * ts, ts=ts, day=per,
                          cont=False, long=False, block=1, ofs=0, names=cols,
                          fate=["ok"] * n, av=[[cols.index(c) + 1 for c in a] for a in av],
                          on=[], tt=[], ex=[], ev=ev, note=dict(tags=sorted(set(tags)))))
    return cases
