"""Q11: trigger thresholds follow the selected method chunk by chunk."""
import random

TRACE = "TriggerTrace"
DESIGN = {"quick": [("ThresholdMC", "ThresholdMC.cfg")],
          "thorough": [("ThresholdMC", "ThresholdMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("Short dense coalescence traces (values multiples of 0.25, from flat to bimodal) with "
        "every method, multiplier and window length, including windows longer than the data, "
        "windows that divide it and final partial windows; Trigger.trigger's events must be "
        "those of the per-window thresholds TriggerTrace computes from the same samples.")
TAGS = ["static", "mad", "median_ratio", "partial-window", "window-longer-than-data",
        "exact-windows", "normalised", "event", "no-event", "on-threshold"]
ASSUMPTIONS = ["Values and multipliers are multiples of 0.25 and 0.5: thresholds compare exactly",
               "window length x sampling rate is a whole number of samples"]


def series(r, n, w):
    """Levels that change from window to window, with spikes around each threshold."""
    kind = r.choice(["levels", "levels", "flat", "two", "noise"])
    out = []
    for k in range(n):
        lvl = [4, 8, 12, 6, 20, 5][(k // w + n) % 6]
        if kind == "levels":
            v = lvl + r.choice([-1, 0, 0, 0, 1, 1, 2])
            if r.random() < 0.12:
                v = lvl * r.choice([1, 2, 3]) // r.choice([1, 1, 2]) + r.choice([-1, 0, 1])
        elif kind == "flat":
            v = lvl + (r.choice([1, 3, 9]) if r.random() < 0.08 else 0)
        elif kind == "two":
            v = lvl if r.random() < 0.5 else lvl + 4
        else:
            v = r.randint(1, 40)
        out.append(max(1, min(60, v)))
    return out


def jobs(tier, seed, gens):
    r = random.Random(seed * 15485863 + 11)
    js = []
    for _ in range(24 if tier == "quick" else 200):
        runs = []
        for _ in range(10):
            dt = r.choice([125, 250, 500, 1000])
            w = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 25, 40, 300])
            n = r.choice([w, 2 * w, 3 * w, 3 * w + 1, 4 * w - 1, 60, 61, 90, 120])
            n = max(8, min(n, 150))
            mw = r.choice([dt, 2 * dt, dt // 5])
            method = r.choice(["static", "mad", "mad", "mad", "median_ratio", "median_ratio",
                               "median_ratio"])
            norm = r.random() < 0.5
            a = series(r, n, w)
            b = series(r, n, w) if norm else [r.randint(1, 60) for _ in a]
            runs.append(dict(dt=dt, n=n, c=a, nn=b, i0=r.choice([0, 400, 4001]), p=dict(
                mw=mw, mei=2 * mw, norm=norm, method=method, win_out=True,
                thr=r.choice([6, 9, 12, 21]), win=w, wlen=w * dt / 1000, off=0,
                pad=r.choice([0, 0, 1000]), dt=dt,
                mult=r.choice([1, 2, 3, 5, 6, 8, 16] if method == "mad" else [2, 3, 4, 5]))))
        js.append(dict(runs=runs))
    return js


def run(job, wd):
    from checks import _trig
    cases = []
    for k, u in enumerate(job["runs"]):
        cases += _trig.run_dense(dict(u, k=k), f"{wd}/{k}")
    return cases
