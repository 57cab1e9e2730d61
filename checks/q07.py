"""Q07: day files partition the computed samples by UTC day, at every write point."""
import random

TRACE = "DetectTrace"
DESIGN = {"quick": [("DetectMC", "DetectMC.cfg")], "thorough": [("DetectMC", "DetectMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("QuakeScan.detect over one to three days with timesteps that do and do not divide a day "
        "and over short spans around midnight; the files on disk are read independently before "
        "every timestep, at the end and after the run is killed inside any timestep, and "
        "compared with the day partition of what has been computed.")
TAGS = ["multi-day", "straddles-midnight", "ends-at-midnight", "continuous", "killed", "faults"]
ASSUMPTIONS = ["the timestep is a whole number of samples and at most a day",
               "a kill falls between file writes: one file write is atomic"]


def jobs(tier, seed, gens):
    from checks import _detect as d
    r = random.Random(seed * 49979687 + 7)
    q = tier == "quick"
    return (d.long_jobs(r, 24 if q else 160) + d.kill_jobs(r, 32 if q else 240)
            + d.span_jobs(r, 8 if q else 60))


def run(job, wd):
    from checks import _detect
    return _detect.run(job, wd)
