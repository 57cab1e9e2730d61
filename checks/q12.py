"""Q12: multi-day triggering loses and duplicates nothing at day boundaries."""
import random

DAY = 86400000
TRACE = "TriggerTrace"
DESIGN = {"quick": [("TriggerDaysMC", "TriggerDaysMC.cfg")],
          "thorough": [("TriggerDaysMC", "TriggerDaysMC_V.cfg"),
                       ("TriggerDaysMC", "TriggerDaysMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("Two to four days of coalescence with bursts at, just before and just after every "
        "midnight (also at year ends and leap days, on grids not aligned with midnight), "
        "triggered as one span, as part spans and day by day; every event file is compared "
        "with TriggerTrace's batches, and the files of a call with the undivided trace. Some runs "
        "have no detect output for a while before or around midnight.")
TAGS = ["event-on-later-day", "peak-first-sample", "peak-last-sample", "year-end",
        "offset-grid", "short-pad", "gap-at-midnight", "NoScanMseedDataException"]
ASSUMPTIONS = ["static thresholds where there is a gap in the coalescence (Q11 has the others, without)"]


def bursts(r, dt, ndays, per, lo, hi):
    """Samples around the midnights (and at the ends of the data)."""
    v = {}
    tags = set()
    for d in range(0, ndays + 1):
        m = d * per
        for _ in range(r.randint(1, 4)):
            k = m + r.choice([-1, 0, -2, 1, r.randint(-12, 12), r.randint(-60, 60)])
            for j in range(r.choice([1, 1, 2, 4, 8])):
                if lo <= k + j <= hi:
                    v[k + j] = r.choice([6, 7, 8, 9, 12])
        if r.random() < 0.4 and lo <= m <= hi:
            v[m] = 20
            tags.add("peak-first-sample")
        elif r.random() < 0.5 and lo <= m - 1 <= hi:
            v[m - 1] = 20
            tags.add("peak-last-sample")
    q = [dict(i=i, c=c, n=r.choice([c, 6, 7]), x=r.randint(-1000, 1000),
              y=r.randint(-900, 900), z=r.randint(-10, 300)) for i, c in sorted(v.items())]
    return q, tags


def jobs(tier, seed, gens):
    r = random.Random(seed * 32452843 + 12)
    js = []
    for k in range(48 if tier == "quick" else 500):
        dt = r.choice([10000, 20000, 30000])
        per = DAY // dt
        nd = r.choice([2, 2, 3, 4])
        lo = r.choice([0, 0, per // 2, 3])
        hi = nd * per - 1 - r.choice([0, 0, per // 3, 5])
        off = r.choice([0, 0, 0, dt // 2, dt // 5, dt - 1000])
        q, tags = bursts(r, dt, nd, per, lo, hi)
        g = random.Random(seed * 1009 + k)
        segs = [[lo, hi]]
        if g.random() < 0.4:      # no detect output just before or around some midnights
            for m in range(per, nd * per, per):
                a, b = m - g.choice([1, 3, 15, 40, 90, 150]), m + g.choice([0, 0, 0, 2, 30])
                if g.random() < 0.7 and segs[-1][0] < a and b <= hi:
                    segs[-1:] = [[segs[-1][0], a - 1], [b, hi]]
            q = [s for s in q if any(x <= s["i"] <= y for x, y in segs)]
            if len(segs) > 1:
                tags.add("gap-at-midnight")
        mw = r.choice([dt, 2 * dt])
        mei = 2 * mw + r.choice([0, dt])
        pad = r.choice([0, 2 * dt, 20 * dt, 60 * dt, 60 * dt, 100 * dt])
        p = dict(mw=mw, mei=mei, norm=r.random() < 0.2, method="static", thr=6, win_out=True,
                 pad=pad)
        base = r.choice(["2021-03-01", "2020-12-31", "2020-12-30", "2020-02-28", "2019-12-31"])
        start, end = 0, nd * DAY
        calls = [dict(sub="all", obj=0, p=p, lo=start, hi=end, region=[], whole=True)]
        for d in range(nd):
            calls.append(dict(sub="one", obj=r.choice([0, 1]), p=p, lo=d * DAY,
                              hi=(d + 1) * DAY, region=[]))
        a = r.randint(0, nd * per - 2)
        b = r.randint(a + 1, nd * per)
        calls.append(dict(sub="part", obj=0, p=p, lo=a * dt, hi=b * dt, region=[]))
        if r.random() < 0.3:
            calls.append(dict(sub="one", obj=0, p=p, lo=(nd - 1) * DAY, hi=(nd + 2) * DAY,
                              region=[]))
        if off:
            # a sample just outside a padded window may be the nearest to its end: none there
            out = set()
            for cl in calls:
                lo_ = cl["lo"]
                while lo_ < cl["hi"]:
                    nx = min((lo_ // DAY + 1) * DAY, cl["hi"])
                    out |= {(lo_ - pad) // dt - 1, (nx + pad) // dt}
                    lo_ = nx
            q = [s for s in q if s["i"] not in out]
        if pad <= 2 * dt:
            tags.add("short-pad")
        if base[5:] != "2021-03-01"[5:]:
            tags.add("year-end")
        js.append(dict(key=f"days-{k}", base=base, dt=dt, off=off, q=q, data=segs,
                       calls=calls, tags=sorted(tags)))
    return js


def run(job, wd):
    from checks import _trig
    return _trig.run_history(job, wd)
