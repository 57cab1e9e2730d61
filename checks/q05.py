"""Q05: detect covers the span sample by sample, whatever the timestep."""
import random

TRACE = "DetectTrace"
DESIGN = {"quick": [("DetectMC", "DetectMC.cfg"), ("MigrationMC", "MigrationMC.cfg")],
          "thorough": [("DetectMC", "DetectMC_T.cfg"), ("MigrationMC", "MigrationMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("QuakeScan.detect on prescribed onset functions (integer logarithms per sample) with an "
        "independently computed grid and traveltimes; every stored sample of every run is "
        "compared with Migration!Stack at that absolute time: the same span under several "
        "timesteps and starts, across midnight, year and leap-day boundaries, with sampling "
        "rates 1-20 Hz, kilometre and metre grids, partial availability and any order of the "
        "availability entries.")
TAGS = ["straddles-midnight", "ends-at-midnight", "not-divisible", "other-timestep",
        "multi-day", "reordered"]
ASSUMPTIONS = ["the timestep is a whole number of samples and at most a day",
               "start and end are on the sample grid"]


def jobs(tier, seed, gens):
    from checks import _detect as d
    r = random.Random(seed * 15485863 + 5)
    q = tier == "quick"
    return (d.span_jobs(r, 40 if q else 300) + d.edge_jobs(r, 16 if q else 100)
            + d.migration_jobs(r, 8 if q else 60))


def run(job, wd):
    from checks import _detect
    return _detect.run(job, wd)
