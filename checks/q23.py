"""Q23: traveltimes served are those of the named station, phase and place."""
import random

TRACE = "LutTrace"
DESIGN = {"quick": [("LutMC", "LutMC.cfg")], "thorough": [("LutMC", "LutMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("homogeneous tables with stations inside, on and outside nodes: stored times against "
        "straight-line distances, served samples for random availability subsets and orders at "
        "several sampling rates, interpolated point queries at quarter-node positions, the "
        "maximum, and requests for missing stations and phases, before and after decimation and "
        "reloading or conversion from files of the old style; the same for tables read from NonLinLoc time grids written independently.")
TAGS = ["partial", "point", "km", "m", "nll-LAMBERT", "nll-TRANS_MERC", "old-style"]
ASSUMPTIONS = ["any exception counts as an explicit error for a missing station or phase"]


def jobs(tier, seed, gens):
    r = random.Random(seed * 122949829 + 23)
    return [dict(mode="nll" if i % 3 == 0 else "serve", seed=r.randrange(1 << 30), ops=r.randint(1, 4))
            for i in range(90 if tier == "quick" else 700)]


def run(job, wd):
    from checks import _lut
    return _lut.run(job, wd)
