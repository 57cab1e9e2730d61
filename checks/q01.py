"""Q01: migration stacks every onset at its own traveltime, for every node and time."""
import random

TRACE = "MigrationTrace"
DESIGN = {"quick": [("MigrationMC", "MigrationMC.cfg")],
          "thorough": [("MigrationMC", "MigrationMC.cfg"), ("MigrationMC", "MigrationMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("core.migrate on random onset arrays whose logarithms are integers or below the floor, "
        "random traveltimes, pads, grid shapes and thread counts 1-16, every map cell compared "
        "with Migration!Stack; larger grids compared cell by cell on a sample of nodes and "
        "whole across thread counts and repetitions; and served traveltimes with partial "
        "availability through QuakeScan.detect on prescribed onsets (module DetectTrace).")
TAGS = ["floor", "one-onset", "one-node", "one-sample", "threads>nodes", "tt-zero", "tt-max",
        "unused-samples-huge", "big", "mismatch", "partial-availability"]
ASSUMPTIONS = ["traveltimes in samples do not exceed the post-pad (guaranteed by the scan)"]


def jobs(tier, seed, gens):
    r = random.Random(seed * 86028121 + 1)
    js = []
    for _ in range(32 if tier == "quick" else 240):
        js.append(dict(kind="direct", seed=r.randrange(1 << 30), n=12))
    for _ in range(8 if tier == "quick" else 40):
        js.append(dict(kind="big", seed=r.randrange(1 << 30)))
    from checks import _detect
    js += _detect.migration_jobs(r, 24 if tier == "quick" else 200)
    return js


def onsets(rng, n, t, lo=-2, hi=4, pf=0.1):
    k = rng.integers(lo, hi + 1, size=(n, t))
    k[rng.random((n, t)) < pf] = -99
    return k


def values(k):
    import numpy as np
    v = np.exp(k.astype(float))
    v[k == -99] = 1e-4
    return v


def run(job, wd):
    import hashlib

    import numpy as np
    if job["kind"] == "detect":
        from checks import _detect
        return _detect.run(job, wd)
    from quakemigrate.core import migrate
    rng = np.random.default_rng(job["seed"])
    cases = []

    def out_of(m, n):
        with np.errstate(all="ignore"):
            o = np.log(m) * n * 1e4
        return np.rint(np.where(np.isfinite(o), o, -2 ** 30)).astype(int).clip(-2 ** 30, 2 ** 30)

    if job["kind"] == "direct":
        for rep in range(job["n"]):
            shape = tuple(int(x) for x in rng.integers(1, 5, size=3))
            n = int(rng.choice([1, 1, 2, 3, 5, 8]))
            ns = int(rng.choice([1, 2, 5, 9]))
            first, last = int(rng.integers(0, 5)), int(rng.integers(0, 12))
            k = onsets(rng, n, first + ns + last, pf=float(rng.choice([0, 0.1, 0.5])))
            tt = rng.integers(0, last + 1, size=shape + (n,)).astype(np.int32)
            if rng.random() < 0.3:
                tt[...] = last
            if rng.random() < 0.3:
                tt[rng.random(tt.shape) < 0.5] = 0
            tags = []
            # samples no node refers to hold huge values
            used = np.zeros(k.shape, bool)
            for o in range(n):
                for x in np.unique(tt[..., o]):
                    used[o, first + x:first + x + ns] = True
            if (~used).any() and rng.random() < 0.6:
                k[~used] = 600
                tags.append("unused-samples-huge")
            th = int(rng.choice([1, 2, 3, 4, 8, 16]))
            m = migrate(values(k), tt, first, last, n, th)
            if (k == -99).any():
                tags.append("floor")
            if n == 1:
                tags.append("one-onset")
            if np.prod(shape) == 1:
                tags.append("one-node")
            if ns == 1:
                tags.append("one-sample")
            if th > np.prod(shape):
                tags.append("threads>nodes")
            if (tt == 0).any():
                tags.append("tt-zero")
            if last and (tt == last).any():
                tags.append("tt-max")
            flat = m.reshape(-1, m.shape[-1])
            ev = [dict(e="migrate", finite=bool(np.isfinite(m).all()),
                       out=out_of(flat, n).tolist())]
            for th2 in (1, 5):
                m2 = migrate(values(k), tt, first, last, n, th2)
                ev.append(dict(e="same", digest=hashlib.sha1(m2.tobytes()).hexdigest()))
            ev.insert(1, dict(e="same", digest=hashlib.sha1(m.tobytes()).hexdigest()))
            if rep == 0:
                tags.append("mismatch")
                got = ""
                try:
                    migrate(values(k), np.concatenate([tt, tt[..., :1]], axis=-1), first, last,
                            n, th)
                except Exception as e:
                    got = type(e).__name__
                ev.append(dict(e="raise", want="ValueError", got=got))
            cases.append(dict(key=f"direct-{rep}", on=k.tolist(), first=first, nsamp=ns,
                              tt=tt.reshape(-1, n).tolist(), ev=ev, note=dict(tags=tags)))
        return cases
    shape = tuple(int(x) for x in rng.integers(18, 34, size=3))
    n, ns, first, last = int(rng.integers(4, 9)), int(rng.integers(20, 60)), 7, 60
    k = onsets(rng, n, first + ns + last)
    tt = rng.integers(0, last + 1, size=shape + (n,)).astype(np.int32)
    ev, pick = [], None
    nn = int(np.prod(shape))
    pick = np.unique(np.concatenate([[0, nn - 1, nn // 2], rng.integers(0, nn, 20)]))
    for th in (1, 8, 3, 8, 13, 8):
        m = migrate(values(k), tt, first, last, n, th)
        ev.append(dict(e="same", digest=hashlib.sha1(m.tobytes()).hexdigest()))
        if th in (1, 13):
            flat = m.reshape(-1, ns)[pick]
            ev.append(dict(e="migrate", finite=bool(np.isfinite(m).all()),
                           out=out_of(flat, n).tolist()))
    return [dict(key="big", on=k.tolist(), first=first, nsamp=ns,
                 tt=tt.reshape(-1, n)[pick].tolist(), ev=ev, note=dict(tags=["big"]))]
