"""Q03: STA/LTA transforms use exactly the documented windows and edges."""
import random

TRACE = "StaLtaTrace"
DESIGN = {"quick": [("StaLtaMC", "StaLtaMC.cfg")], "thorough": [("StaLtaMC", "StaLtaMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("integer signals (random, sparse, with stretches of zeros at the start, the end and "
        "inside, constant, single spikes) of lengths below, at and above the window lengths for "
        "every implementation and position, compared sample by sample with StaLta!Value; the "
        "recursive transform with its recurrence; real signals of 300 to 5000 samples.")
TAGS = ["classic-c", "classic-py", "centred-c", "centred-py", "recursive", "shorter-than-window",
        "exact-fit", "zeros", "real", "long-window"]
ASSUMPTIONS = ["the short window is shorter than the long one",
               "non-negative signals with a dynamic range that sums resolve"]


def jobs(tier, seed, gens):
    r = random.Random(seed * 86028121 + 3)
    return [dict(seed=r.randrange(1 << 30), n=25) for _ in range(16 if tier == "quick" else 240)]


def signal(r, n):
    k = r.choice(["random", "sparse", "zeros", "spike", "const", "ends", "small"])
    if k == "random":
        x = [r.randint(0, 50) for _ in range(n)]
    elif k == "small":
        x = [r.randint(0, 2) for _ in range(n)]
    elif k == "sparse":
        x = [r.choice([0, 0, 0, 0, r.randint(1, 50)]) for _ in range(n)]
    elif k == "spike":
        x = [0] * n
        x[r.randrange(n)] = r.randint(1, 50)
    elif k == "const":
        x = [r.choice([0, 1, 7])] * n
    else:
        x = [r.randint(0, 50) for _ in range(n)]
        a = r.randrange(n)
        b = r.randint(a, n)
        if k == "ends":
            a, b = r.choice([(0, b), (a, n)])
        x[a:b] = [0] * (b - a)
    return x


def run(job, wd):
    import numpy as np
    from fractions import Fraction
    from quakemigrate.core import centred_sta_lta, overlapping_sta_lta, recursive_sta_lta
    from quakemigrate.signal.onsets.stalta import centred_sta_lta_py, overlapping_sta_lta_py
    impl = {("classic", "c"): overlapping_sta_lta, ("classic", "py"): overlapping_sta_lta_py,
            ("centred", "c"): centred_sta_lta, ("centred", "py"): centred_sta_lta_py}
    r = random.Random(job["seed"])
    rng = np.random.default_rng(job["seed"])
    cases = []

    def scaled(v, u):
        return int(round(float(v) * u)) if np.isfinite(v) and abs(v) < 2e9 / u else -1

    for rep in range(job["n"]):
        ev, tags = [], []
        nl = r.choice([r.randint(2, 12), r.randint(2, 12), r.randint(13, 40)])
        ns = r.randint(1, min(5, nl - 1))
        if nl > 12:
            tags.append("long-window")
        n = r.choice([r.randint(1, nl), nl, nl + 1, nl + ns, nl + ns + 1, nl + ns - 1,
                      r.randint(nl, nl + 60), r.randint(nl, nl + 60)])
        x = signal(r, n)
        if 0 in x:
            tags.append("zeros")
        if n < nl + ns:
            tags.append("shorter-than-window")
        if n in (nl, nl + ns):
            tags.append("exact-fit")
        for (fn, im), f in impl.items():
            a = np.array(x, dtype=r.choice([float, float, np.int64]) if im == "c" else float)
            before = a.copy()
            y = f(a, ns, nl)
            ev.append(dict(e="int", fn=fn, impl=im, ns=ns, nl=nl, x=x,
                           y=[scaled(t, 1e4) for t in y], pure=bool((a == before).all())))
            tags.append(f"{fn}-{im}")
        if n > nl:
            y = recursive_sta_lta(np.array(x, float), ns, nl)
            s_, l_ = Fraction(0), Fraction(0)
            want = [1000000] * n
            for i in range(1, n):
                s_ = Fraction(x[i], ns) + (1 - Fraction(1, ns)) * s_
                l_ = Fraction(x[i], nl) + (1 - Fraction(1, nl)) * l_
                s_, l_ = s_.limit_denominator(10 ** 40), l_.limit_denominator(10 ** 40)
                if i >= nl:
                    want[i] = int(round(float(s_ / l_ if l_ else 1) * 1e6))
            if max(want) < 2e9:
                ev.append(dict(e="rec", y=[scaled(t, 1e6) for t in y], want=want))
                tags.append("recursive")
        # a real signal
        n = r.choice([300, 1000, 5000])
        nl = r.randint(20, 150)
        ns = r.randint(2, 19)
        x = np.square(rng.normal(0, 1, n)) * r.choice([1, 1e-12, 1e9])
        if r.random() < 0.4:
            x[n // 2:n // 2 + 50] *= 1e4
        a, b = np.arange(n), np.r_[0, np.cumsum(x)]
        for (fn, im), f in impl.items():
            y = np.asarray(f(x.copy(), ns, nl))
            i = a[nl - 1:n if fn == "classic" else n - ns]
            lta = (b[i + 1] - b[i + 1 - nl]) / nl
            sta = ((b[i + 1] - b[i + 1 - ns]) if fn == "classic" else (b[i + 1 + ns] - b[i + 1])) / ns
            odd = int((~np.isfinite(y)).sum())
            err = 0
            if len(y) == n:
                err = int(min(1e9, np.nan_to_num(
                    np.abs(y[i] - sta / lta) / (0.01 + sta / lta), nan=1e9).max() * 1e6))
            edge = int((np.delete(y, i) != 1).sum()) if len(y) == n else 0
            ev.append(dict(e="real", fn=fn, impl=im, n=n, len=len(y), err=err, edge=edge, odd=odd))
            tags.append("real")
        cases.append(dict(key=f"stalta-{rep}", ev=ev, note=dict(tags=sorted(set(tags)))))
    return cases
