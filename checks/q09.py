"""Q09: triggered events are exactly the merged threshold crossings."""
import random

TRACE = "TriggerTrace"
DESIGN = {"quick": [("TriggerMC", "TriggerMC.cfg"), ("TriggerMC", "TriggerMC_N.cfg")],
          "thorough": [("TriggerMC", "TriggerMC_T.cfg"), ("TriggerMC", "TriggerMC_NT.cfg")]}
GENERATE = {"traces": ("TriggerGen", "TriggerGen.cfg", "TriggerGenT.cfg")}
LEVEL = "model_checking"
RULE = ("Every coalescence trace TLC enumerates from TriggerMC (all value sequences of the "
        "stated length, both trigger modes, all window pairs) plus random longer traces with "
        "ties, bursts and windows that are no multiple of the sample; laid out in day files, "
        "triggered by Trigger.trigger, the event file validated against TriggerTrace. A case "
        "is one trace; all cases with at least one sample at threshold are non-trivial.")
TAGS = ["event", "merged", "no-event", "two-events", "normalised", "at-threshold", "tie",
        "data-start", "data-end", "km", "m"]
ASSUMPTIONS = ["Quiet stretches between traces (longer than two event windows) isolate them",
               "Values are multiples of 0.25, so float comparisons are exact"]


def chunked(lst, n):
    return [lst[i:i + n] for i in range(0, len(lst), n)]


def rand_trace(r, longer=False):
    n = r.randint(3, 40 if not longer else 120)
    mode = r.choice(["noise", "burst", "edge", "plateau"])
    out, v = [], 0
    for k in range(n):
        if mode == "noise":
            v = r.choice([1, 2, 5, 6, 6, 7, 9])
        elif mode == "burst":
            v = max(1, min(30, v + r.choice([-3, -2, -1, 0, 1, 2, 4])))
        elif mode == "edge":
            v = r.choice([5, 6, 6, 5, 1])
        else:
            v = v if r.random() < 0.7 else r.choice([1, 6, 8, 8, 12])
        out.append(max(1, v))
    return out


def jobs(tier, seed, gens):
    r = random.Random(seed * 7919 + 9)
    js = []
    groups = {}
    for g in gens["traces"]:
        groups.setdefault((g["mw"], g["mei"], g["norm"]), []).append(g)
    for (mw, mei, norm), gs in sorted(groups.items()):
        r.shuffle(gs)
        for part in chunked(gs, 260):
            # model units: one sample = one tick; value 1 is the threshold
            dt = r.choice([100, 50, 20])
            js.append(dict(kind="gen", dt=dt, off=0, units=r.choice(["km", "m"]),
                           p=dict(mw=mw * dt, mei=mei * dt, norm=norm, method="static", thr=6,
                                  win_out=True),
                           tr=[[[(1, 6, 9)[v] for v in g["c"]], [(1, 6, 9)[v] for v in g["n"]]]
                               for g in part]))
    for _ in range(16 if tier == "quick" else 120):
        dt = r.choice([20, 50, 100, 200, 16])
        mw = r.choice([dt, 2 * dt, 3 * dt, 3 * dt + dt // 2, 5 * dt // 2, 7])
        mei = 2 * mw + r.choice([0, 0, 1, dt, dt // 2, 4 * dt])
        norm = r.random() < 0.4
        tr = []
        for _ in range(60):
            a = rand_trace(r, tier == "thorough" and r.random() < 0.3)
            if norm:
                b = [r.choice([1, 3, 5, 6, 7, 9, v]) for v in a]
            else:
                b = [r.choice([1, 6, 20]) for _ in a]
            tr.append([a, b])
        js.append(dict(kind="rand", dt=dt, off=0, units=r.choice(["km", "m"]),
                       p=dict(mw=mw, mei=mei, norm=norm, method="static", thr=6, win_out=True),
                       tr=tr))
    return js


def run(job, wd):
    from checks import _trig
    return _trig.run_snippets(job, wd)
