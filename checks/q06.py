"""Q06: timesteps without usable data are zero-filled, flagged and isolated."""
import random

TRACE = "DetectTrace"
DESIGN = {"quick": [("DetectMC", "DetectMC.cfg")], "thorough": [("DetectMC", "DetectMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("QuakeScan.detect with every fault kind (empty archive, gappy data, no station available) "
        "at the first, last, single, several and all timesteps, with partial availability "
        "elsewhere; all stored samples and every availability row compared with the "
        "specification, in which a failed step has no influence outside its own samples.")
TAGS = ["faults", "fault-gap", "fault-empty", "fault-none", "all-faulty", "partial-availability",
        "straddles-midnight", "continuous"]
ASSUMPTIONS = ["data faults reach the scan as the documented exceptions (Q18, Q19 cover where "
               "they are raised)"]


def jobs(tier, seed, gens):
    from checks import _detect as d
    r = random.Random(seed * 32452843 + 6)
    q = tier == "quick"
    return d.fault_jobs(r, 48 if q else 400) + d.long_jobs(r, 6 if q else 30)


def run(job, wd):
    from checks import _detect
    return _detect.run(job, wd)
