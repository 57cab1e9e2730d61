"""Q21: grid indices, coordinates and decimated grids stay mutually consistent."""
import random

TRACE = "LutTrace"
DESIGN = {"quick": [("LutMC", "LutMC.cfg")], "thorough": [("LutMC", "LutMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("grids of 1-7 nodes a side in two projections, kilometre and metre units, equal and unequal "
        "spacings, decimated repeatedly in and out of place by every kind of factor; for every "
        "node of every table the coordinates, the inverse, the layout, corners and extents and "
        "the traveltimes stored are compared with the node of the base grid it stands for.")
TAGS = ["decimated", "in-place", "offset", "km", "m"]
ASSUMPTIONS = ["the map projection itself (pyproj) is trusted"]


def jobs(tier, seed, gens):
    r = random.Random(seed * 122949829 + 21)
    return [dict(mode="grid", seed=r.randrange(1 << 30), ops=r.randint(1, 4))
            for _ in range(80 if tier == "quick" else 700)]


def run(job, wd):
    from checks import _lut
    return _lut.run(job, wd)
