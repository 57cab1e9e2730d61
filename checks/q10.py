"""Q10: events triggered in a batch are separated, ordered and uniquely named."""
import random

from checks import q09

TRACE = "TriggerTrace"
DESIGN = q09.DESIGN
LEVEL = "model_checking"
RULE = ("Random coalescence traces built to put peaks at, just inside and just outside the "
        "separating distances (min_event_interval, +- marginal window, chains of crossings), "
        "at many times of day including either side of midnight and sub-second offsets; "
        "Trigger.trigger's file is checked against TriggerTrace's promises (order, separation, "
        "distinct identifiers spelling the time, window containing the time) and its rows.")
TAGS = ["event", "merged", "two-events", "normalised", "chain", "crosses-midnight",
        "offset-grid"]
ASSUMPTIONS = q09.ASSUMPTIONS


def spaced(r, mw, mei, dt):
    """Crossings separated by about the critical distances."""
    a = []
    for _ in range(r.randint(2, 7)):
        a += [r.randint(6, 12) for _ in range(r.choice([1, 1, 2, 3, mw // dt + 1, mw // dt + 2]))]
        crit = r.choice([mei, mei + mw, mei + mw, 2 * mei - mw, mw, mei - mw, 2 * mei])
        a += [r.choice([1, 2, 5])] * max(1, crit // dt + r.choice([-2, -1, -1, 0, 0, 1, 2]))
    return a


def jobs(tier, seed, gens):
    r = random.Random(seed * 104729 + 10)
    js = []
    for k in range(16 if tier == "quick" else 160):
        dt = r.choice([20, 50, 100, 200, 16, 10])
        mw = r.choice([dt, 2 * dt, 3 * dt, 3 * dt + dt // 2, 4 * dt])
        mei = 2 * mw + r.choice([0, 0, 1, dt, dt // 2, 3 * dt])
        norm = r.random() < 0.4
        tr = []
        for _ in range(50):
            a = spaced(r, mw, mei, dt) if r.random() < 0.8 else q09.rand_trace(r)
            b = [r.choice([v, v, v + 1, 5, 6, 8]) for v in a] if norm else a
            tr.append([a, b])
        day = 86400000 // dt
        js.append(dict(kind="sep", dt=dt, off=r.choice([0, 0, 0, dt // 2, 1, dt // 4]),
                       units=r.choice(["km", "m"]),
                       i0=r.choice([1, 3, 3599000 // dt, day // 2 - 7, day - 700, day - 1500]),
                       p=dict(mw=mw, mei=mei, norm=norm, method="static", thr=6, win_out=True,
                              pad=r.choice([0, 2000, 600000])),
                       tr=tr))
    return js


def run(job, wd):
    from checks import _trig
    cs = _trig.run_snippets(job, wd)
    for c in cs:
        n = sum(len(f["rows"]) for f in c["ev"][0]["files"])
        if n > 2:
            c["note"]["tags"].append("chain")
        if c["q"][0]["i"] * job["dt"] < 86400000 <= c["q"][-1]["i"] * job["dt"]:
            c["note"]["tags"].append("crosses-midnight")
        if job["off"]:
            c["note"]["tags"].append("offset-grid")
    return cs
