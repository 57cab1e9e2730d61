"""Q16: a located event reports its map's true peak."""
import random

TRACE = "LocateTrace"
DESIGN = {"quick": [("LocateMC", "LocateMC.cfg")], "thorough": [("LocateMC", "LocateMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("QuakeScan.locate on prescribed onset functions with an independently computed grid: origin "
        "time, coalescence, normalised coalescence, the whole coalescence map, the time-marginalised "
        "map, the gridded (or interpolated) location, the covariance errors and the trigger-stage "
        "values of every event file, for partial availability, ties and every grid size, from trigger files of the present and the "
        "two earlier layouts.")
TAGS = ["spline", "partial-availability", "threads", "layout-old", "layout-older"]
ASSUMPTIONS = ["trigger times and the marginal window are on the sample grid",
               "trigger files of earlier versions are those with COA_V for TRIG_COA, with or without "
               "COA and COA_NORM"]


def jobs(tier, seed, gens):
    from checks import _locate as d
    r = random.Random(seed * 15485863 + 16)
    q = tier == "quick"
    return d.peak_jobs(r, 90 if q else 600)


def run(job, wd):
    from checks import _locate
    return _locate.run(job, wd)
