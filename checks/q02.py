"""Q02: the peak finder returns the true maximum and its node at every sample."""
import random

TRACE = "MigrationTrace"
DESIGN = {"quick": [("PeakMC", "PeakMC.cfg")],
          "thorough": [("PeakMC", "PeakMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("core.find_max_coa on maps of small integers: random maps with many ties, peaks at the "
        "first and last node, single nodes and samples, and large maps with planted peaks, for "
        "1-16 threads; value, lowest node and normalised peak compared with the specification, "
        "and all thread counts and repetitions with each other.")
TAGS = ["tie", "first-node", "last-node", "one-node", "one-sample", "big", "threads>samples"]
ASSUMPTIONS = ["maps are C-contiguous arrays of positive doubles, as migrate returns them"]


def jobs(tier, seed, gens):
    r = random.Random(seed * 122949823 + 2)
    return ([dict(kind="small", seed=r.randrange(1 << 30), n=25)
             for _ in range(32 if tier == "quick" else 240)]
            + [dict(kind="big", seed=r.randrange(1 << 30))
               for _ in range(16 if tier == "quick" else 100)])


def run(job, wd):
    import hashlib

    import numpy as np
    from quakemigrate.core import find_max_coa
    rng = np.random.default_rng(job["seed"])

    def call(m, th):
        mx, nm, ix = find_max_coa(m, th)
        d = hashlib.sha1(mx.tobytes() + nm.tobytes() + ix.tobytes()).hexdigest()

        def enc(a, f):
            with np.errstate(all="ignore"):
                return np.rint(np.nan_to_num(a * f, nan=-1, posinf=-2, neginf=-3)).astype(
                    int).clip(-2 ** 30, 2 ** 30).tolist()
        return dict(e="peak", max=enc(mx, 1e3), norm=enc(nm, 1e5),
                    idx=[int(i) for i in ix]), dict(e="same", digest=d)

    cases = []
    for rep in range(job.get("n", 1)):
        if job["kind"] == "small":
            shape = tuple(int(x) for x in rng.integers(1, 5, size=3))
            ns = int(rng.choice([1, 2, 3, 7, 12]))
            top = int(rng.choice([2, 3, 9, 40]))
            m = rng.integers(1, top + 1, size=shape + (ns,)).astype(float)
        else:
            shape = tuple(int(x) for x in rng.integers(15, 26, size=3))
            ns = int(rng.choice([33, 100, 257]))
            m = np.ones(shape + (ns,))
        flat = m.reshape(-1, ns)
        nn = flat.shape[0]
        tags = []
        if job["kind"] == "big":
            tags.append("big")
            for t in range(ns):
                for p in rng.integers(0, nn, size=int(rng.integers(0, 4))):
                    flat[p, t] = rng.integers(2, 5)
                if rng.random() < 0.1:
                    flat[0, t] = 5
                if rng.random() < 0.1:
                    flat[nn - 1, t] = rng.integers(3, 6)
        else:
            if rng.random() < 0.3:
                flat[nn - 1, :] = top + 1
            if rng.random() < 0.2:
                flat[0, :] = top + 1
        s = []
        for t in range(ns):
            col = flat[:, t]
            b = int(col.min()) if job["kind"] == "small" else 1
            s.append(dict(base=b, nodes=nn, plant=[[int(i), int(col[i])]
                                                   for i in np.flatnonzero(col > b)]))
            w = np.flatnonzero(col == col.max())
            if len(w) > 1:
                tags.append("tie")
            if w[0] == 0:
                tags.append("first-node")
            if w[0] == nn - 1:
                tags.append("last-node")
        if nn == 1:
            tags.append("one-node")
        if ns == 1:
            tags.append("one-sample")
        ths = (1, 2, 16) if job["kind"] == "small" else (1, 8, 3, 8, 16, 8)
        ev = []
        for j, th in enumerate(ths):
            if th > ns:
                tags.append("threads>samples")
            a, b = call(m, th)
            if j == len(ths) - 1:
                ev.append(dict(a, s=s))
            ev.append(b)
        cases.append(dict(key=f"{job['kind']}-{rep}", ev=ev, note=dict(tags=sorted(set(tags)))))
    return cases
