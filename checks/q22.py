"""Q22: lookup tables survive saving, loading, copying and combining."""
import random

TRACE = "LutTrace"
DESIGN = {"quick": [("LutMC", "LutMC.cfg")], "thorough": [("LutMC", "LutMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("histories of saving and loading by all three routes, copying, decimating and adding three "
        "tables (two on one grid with overlapping stations, one on another grid); after every "
        "operation every table in memory is observed completely and compared.")
TAGS = ["load-read_lut", "load-constructor", "load-method", "added", "added-overlap", "refused",
        "in-place", "decimated"]
ASSUMPTIONS = ["tables that are added have the same phases"]


def jobs(tier, seed, gens):
    r = random.Random(seed * 122949829 + 22)
    return [dict(mode="ops", seed=r.randrange(1 << 30), ops=r.randint(1, 4))
            for _ in range(80 if tier == "quick" else 700)]


def run(job, wd):
    from checks import _lut
    return _lut.run(job, wd)
