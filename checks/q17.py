"""Q17: detect and locate agree on coalescence."""
import random

TRACE = "LocateTrace"
DESIGN = {"quick": [("LocateMC", "LocateMC.cfg"), ("MigrationMC", "MigrationMC.cfg")],
          "thorough": [("LocateMC", "LocateMC_T.cfg"), ("MigrationMC", "MigrationMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("QuakeScan.detect, Trigger.trigger and QuakeScan.locate in sequence on the same prescribed "
        "onset functions, across midnight, for several timesteps, marginal windows and partial "
        "availability: the peak trace of every located event's coalescence map equals the stored "
        "coalescence of the same samples, both equal the specified stack, every window read covers "
        "the largest traveltime, and an event triggered at the only peak is located there.")
TAGS = ["several-events", "straddles-midnight", "partial-availability", "normalised", "same-object"]
ASSUMPTIONS = ["the onset functions depend on absolute time only"]


def jobs(tier, seed, gens):
    from checks import _locate as d
    r = random.Random(seed * 15485863 + 17)
    return d.chain_jobs(r, 60 if tier == "quick" else 500)


def run(job, wd):
    from checks import _locate
    return _locate.run_chain(job, wd)
