"""Q14: locate considers exactly the triggered events of the requested window."""
import random

TRACE = "LocateTrace"
DESIGN = {"quick": [("LocateMC", "LocateMC.cfg")], "thorough": [("LocateMC", "LocateMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("QuakeScan.locate on independently written trigger files: events on, before and after the "
        "bounds of the span and of days, over several day files with some missing or empty, with "
        "files of other runs and sub-runs lying beside them; spans, trigger files, and incomplete "
        "or inverted requests. What is considered is observed at the archive, event by event.")
TAGS = ["how-span", "how-file", "how-start", "how-end", "how-none", "ends-at-midnight", "multi-day",
        "event-at-bound", "missing-day-file", "raised-NoTriggerFilesFound",
        "raised-TimeSpanException", "raised-RuntimeError"]
ASSUMPTIONS = ["trigger times and the marginal window are on the sample grid"]


def jobs(tier, seed, gens):
    from checks import _locate as d
    r = random.Random(seed * 15485863 + 14)
    q = tier == "quick"
    return d.select_jobs(r, 60 if q else 500)


def run(job, wd):
    from checks import _locate
    return _locate.run(job, wd)
