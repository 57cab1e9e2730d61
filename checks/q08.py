"""Q08: coalescence survives the integer encoding and windowed read-back."""
import math
import os
import random

TRACE = "StoreTrace"
DESIGN = {"quick": [("StoreMC", "StoreMC.cfg"), ("ReadMC", "ReadMC.cfg")],
          "thorough": [("StoreMC", "StoreMC_T.cfg"), ("ReadMC", "ReadMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("values over the whole representable range (and above it), coordinates in all quadrants "
        "and depths of both signs in kilometre and metre grids, written through ScanmSEED in "
        "chunks around midnight and year ends, read back with read_scanmseed for windows inside, "
        "across and outside the stored samples, with holes at day boundaries.")
TAGS = ["clipped", "km", "m", "across-midnight", "hole", "no-data", "negative", "big-jump",
        "continuous", "pad", "other-rate"]
ASSUMPTIONS = ["windows are on the sample grid"]


def jobs(tier, seed, gens):
    r = random.Random(seed * 86028157 + 8)
    return [dict(seed=r.randrange(1 << 30), n=6) for _ in range(40 if tier == "quick" else 400)]


def wf(x, u):
    w = math.floor(x)
    f = int(round((x - w) * u))
    return [w + 1, 0] if f == u else [int(w), f]


def run(job, wd):
    import numpy as np
    from quakemigrate.io import Run
    from quakemigrate.io.scanmseed import ScanmSEED, read_scanmseed
    import quakemigrate.util as util
    from vlib import drv
    r = random.Random(job["seed"])
    rng = np.random.default_rng(job["seed"])
    U = [1e7, 1e7, 1e8, 1e8, 1e6]
    cases = []
    for rep in range(job["n"]):
        drv.set_base(r.choice(["2021-03-01", "2019-12-31", "2020-02-28"]))
        sr = r.choice([1, 10, 20, 50, 100])
        per = 86400 * sr
        units = r.choice(["km", "m"])
        ucf = 1000 if units == "km" else 1
        tags = [units]
        rd = os.path.join(wd, f"r{rep}")
        run_ = Run(rd, "run")

        def series(n):
            k = r.choice(["small", "mixed", "big", "jump", "edge"])
            if k == "small":
                v = rng.uniform(0.05, 5, n)
            elif k == "mixed":
                v = 10 ** rng.uniform(-4, 4.6, n)
            elif k == "big":
                v = rng.uniform(20000, 40000, n)
            elif k == "jump":
                v = rng.choice([0.0, 21473.99999, 21474.0, 30000.0, 1e9], n)
                tags.append("big-jump")
            else:
                v = 21474 + rng.integers(-3, 4, n) * rng.choice([1e-5, 1e-3, 1, 0.4e-5])
            if (v > 21474).any():
                tags.append("clipped")
            return v

        segs, chunks = [], []
        nseg = 1 if r.random() < 0.6 else 2
        pos = per * r.choice([1, 1, 2]) - r.randint(0, 60)
        for sgi in range(nseg):
            n = r.randint(1, 120)
            if nseg == 2 and not sgi:
                n = min(n, max(1, -pos % per - r.randint(0, 5)))
            if sgi and -pos % per > 200:
                break
            if sgi:
                # a hole that ends at a day boundary or starts there
                d = -(-(pos) // per)
                pos = max(pos + r.randint(1, 5), d * per)
                if pos % per == 0 and r.random() < 0.5:
                    pos += r.randint(0, 3)
                tags.append("hole")
            c, nn = series(n), series(n)
            x = rng.uniform(-180, 180, n)
            y = rng.uniform(-90, 90, n)
            z = rng.uniform(-5000, 800000, n) if r.random() < 0.7 else rng.uniform(-5e3, 100, n)
            if (z < 0).any():
                tags.append("negative")
            segs.append((pos, c, nn, x, y, z))
            pos += n
        # two segments in one day would be one file overwriting the other: separate days only
        if len(segs) == 2:
            e0 = segs[0][0] + len(segs[0][1]) - 1
            if e0 // per == segs[1][0] // per:
                segs = segs[:1]
                tags.remove("hole")
        for i0, c, nn, x, y, z in segs:
            cont = r.random() < 0.3
            if cont:
                tags.append("continuous")
            w = ScanmSEED(run_, cont, sr)
            j = 0
            while j < len(c):
                m = r.choice([1, 7, 30, len(c)])
                sl = slice(j, min(len(c), j + m))
                w.append(drv.DAY0 + (i0 + j) / sr, c[sl].copy(), nn[sl].copy(),
                         np.c_[x, y, z / ucf][sl], ucf)
                j += m
            if not w.written:
                w.write()
        # another rate on the day before or after: nothing of it can be part of what is read
        other = len(segs) == 1 and len({segs[0][0] // per, (pos - 1) // per}) == 1 \
            and r.random() < 0.3
        if other:
            tags.append("other-rate")
            sr2 = r.choice([q for q in (1, 10, 20, 50, 100) if q != sr])
            d = segs[0][0] // per + r.choice([-1, 1])
            w = ScanmSEED(run_, False, sr2)
            n = r.randint(2, 200)
            i0 = d * 86400 * sr2 + (0 if d > segs[0][0] // per else 86400 * sr2 - n)
            w.append(drv.DAY0 + i0 / sr2, series(n), series(n), rng.uniform(-90, 90, (n, 3)), ucf)
            if not w.written:
                w.write()
        stored = set()
        for i0, c, *_ in segs:
            stored |= set(range(i0, i0 + len(c)))
        first, last = min(stored), max(stored)
        if first // per != last // per:
            tags.append("across-midnight")
        ev = []
        for q in range(5):
            k = r.randrange(5)
            if k == 0:
                a, b = first, last
            elif k == 1:
                a, b = first - r.randint(0, 30), last + r.randint(0, 30)
            elif k == 2:
                a, b = last + per + 1, last + per + 100
            else:
                a = r.randint(first - 5, last)
                b = r.randint(a, last + 5)
            L = b - a
            pad = r.choice([0, 0, L // 3])
            if other:      # the requested period is where the rate is sr, its padding anywhere
                a = r.randint(first, last)
                b = r.randint(a, last)
                pad = r.choice([0, 1, per // 86400 * 300, per])
                a, b = a - pad, b + pad
            e = dict(e="read", a=a, b=b, first=0, v=[], contig=True, raised="")
            try:
                df, stats = read_scanmseed(run_, drv.DAY0 + (a + pad) / sr,
                                           drv.DAY0 + (b - pad) / sr, pad / sr, ucf)
                idx = np.array([(t - drv.DAY0) * sr for t in df["DT"]])
                ii = np.rint(idx).astype(int)
                e["first"] = int(ii[0])
                e["contig"] = bool((np.diff(ii) == 1).all() and np.abs(idx - ii).max() < 1e-3)
                e["v"] = [[wf(v * (ucf if ch == 4 else 1), U[ch]) for ch, v in enumerate(row)]
                          for row in df[["COA", "COA_N", "X", "Y", "Z"]].values.tolist()]
            except util.NoScanMseedDataException as x:
                e["raised"] = type(x).__name__
                tags.append("no-data")
            if pad:
                tags.append("pad")
            ev.append(e)
        v = [[] for _ in range(last - first + 1)]
        for i0, c, nn, x, y, z in segs:
            for j, t in enumerate(zip(c.tolist(), nn.tolist(), x.tolist(), y.tolist(),
                                      z.tolist())):
                v[i0 + j - first] = [wf(a, U[k]) if k > 1 or a < 5e4 else [50000, 0]
                                     for k, a in enumerate(t)]
        cases.append(dict(
            key=f"store-{rep}", ev=ev, first=first, v=v,
            note=dict(tags=sorted(set(tags)))))
    return cases
