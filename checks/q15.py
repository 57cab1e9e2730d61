"""Q15: events are located independently; unusable ones leave nothing."""
import random

TRACE = "LocateTrace"
DESIGN = {"quick": [("LocateMC", "LocateMC.cfg")], "thorough": [("LocateMC", "LocateMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("QuakeScan.locate on prescribed onset functions whose peak is put at, inside and outside the "
        "edge of the marginal window, mixed with events whose data are missing, gappy or without "
        "any available onset; the same events together, in reverse order and each alone: the files "
        "left are exactly those of the eligible events and identical in every call.")
TAGS = ["alone", "how-file", "how-span", "fate-ok", "fate-gap", "fate-empty", "fate-none",
        "off-inside", "off-edge", "off-outside", "partial-availability"]
ASSUMPTIONS = ["trigger times and the marginal window are on the sample grid"]


def jobs(tier, seed, gens):
    from checks import _locate as d
    r = random.Random(seed * 15485863 + 15)
    q = tier == "quick"
    return d.batch_jobs(r, 60 if q else 500)


def run(job, wd):
    from checks import _locate
    return _locate.run(job, wd)
