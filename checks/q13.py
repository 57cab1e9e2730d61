"""Q13: the triggered-event file is exactly this run's selection of events."""
import random

DAY = 86400000
TRACE = "TriggerTrace"
DESIGN = {"quick": [("TriggerFilesMC", "TriggerFilesMC.cfg")],
          "thorough": [("TriggerFilesMC", "TriggerFilesMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("Histories of 3-8 trigger calls in one process on one run: different spans, regions "
        "(with bounds exactly on event coordinates), thresholds (including none exceeding), "
        "sub-run names, event windows on and off, same or new Trigger objects; after each "
        "call every file of every sub-run is compared with TriggerTrace's state.")
TAGS = ["region", "same-object", "region-excludes", "threshold-too-high", "windows-on-then-off",
        "TimeSpanException", "two-subs"]
ASSUMPTIONS = ["A day without events may be left without a file or with a file without rows"]


def jobs(tier, seed, gens):
    r = random.Random(seed * 49979687 + 13)
    js = []
    for k in range(64 if tier == "quick" else 640):
        dt = r.choice([10000, 20000])
        per = DAY // dt
        nd = 2
        v = {}
        for _ in range(r.randint(3, 10)):
            i = r.choice([r.randint(0, nd * per - 10), per + r.randint(-30, 30)])
            for j in range(r.choice([1, 2, 4])):
                v[i + j] = r.choice([6, 7, 9, 12, 15])
        q = [dict(i=i, c=c, n=c, x=r.randint(-20, 20), y=r.randint(-20, 20),
                  z=r.randint(-2, 9)) for i, c in sorted(v.items())]
        tags, calls, subs = set(), [], r.choice([["", "b"], ["a", "b-c"], [""], ["a_b"]])
        if len(subs) > 1:
            tags.add("two-subs")
        mw = dt
        prev = None
        for _ in range(r.randint(3, 8)):
            thr = r.choice([6, 6, 8, 10, 16, 16])
            if thr == 16:
                tags.add("threshold-too-high")
            p = dict(mw=mw, mei=2 * mw + r.choice([0, dt]), norm=r.random() < 0.3,
                     method="static", thr=thr, win_out=r.random() < 0.5, pad=20 * dt)
            if prev and prev["win_out"] and not p["win_out"]:
                tags.add("windows-on-then-off")
            prev = p
            lo, hi = r.choice([(0, 2 * DAY), (0, DAY), (DAY, 2 * DAY), None, None])\
                or sorted((r.choice(q)["i"] * dt + r.choice([0, 0, 1, -1]),
                           r.choice(q)["i"] * dt + r.choice([0, 0, 1, -1])))
            lo = max(0, lo)
            region = []
            if r.random() < 0.5:
                s = r.choice(q)
                region = [s["x"] - r.choice([0, 0, 1, 9]), s["y"] - r.choice([0, 3]),
                          s["z"] - r.choice([0, 1, 9]), s["x"] + r.choice([0, 0, 1, 9]),
                          s["y"] + r.choice([0, 1, 9]), s["z"] + r.choice([0, 1, 9])]
                tags.add("region-excludes")
            if r.random() < 0.05:
                lo, hi = hi + 1000, lo
            calls.append(dict(sub=r.choice(subs), obj=r.choice([0, 1, 1, 2]), p=p, lo=lo, hi=hi,
                              region=region))
        js.append(dict(key=f"hist-{k}", base="2021-03-01", dt=dt, off=0, q=q,
                       data=[[0, nd * per - 1]], calls=calls, tags=sorted(tags)))
    return js


def run(job, wd):
    from checks import _trig
    return _trig.run_history(job, wd)
