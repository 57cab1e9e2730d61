"""Q31: Stages are repeatable: same inputs, same outputs, in any call history."""
from checks import _runs

TRACE = "RunsTrace"
DESIGN = {"quick": [("RunsMC", "RunsMC.cfg")], "thorough": [("RunsMC", "RunsMC_T.cfg")]}
LEVEL = "model_checking"
RULE = (
        "Histories of 9 to 16 calls of detect, trigger and locate in one process on real "
        "waveforms (STA/LTA onsets, autopicks, magnitudes, maps, cut waveforms), on one or two "
        "runs; operations repeated with the same, new and all new objects (tables, archives, onsets, pickers), after others, under other "
        "names; shared lookup tables, archives, onsets, pickers and magnitudes; spans over "
        "midnight, windows the wrong way round, given trigger files, plots, log files. Every "
        "file of the common directory is followed: Runs.tla decides which ones an operation may "
        "touch and that equal inputs give equal contents.")
TAGS = ["again", "detect", "log", "made-between", "raised", "same-object", "trigger", "triggered",
        "two-days", "dots", "given-file", "locate", "located", "plots", "onset-shared-by-tables",
        "magnitudes", "all-new"]
ASSUMPTIONS = ["repeated operations are compared within a history; pads of onset and scan objects are theirs to set"]
CHUNK = 8


def jobs(tier, seed, gens):
    return _runs.jobs(tier, seed, 31, many=False)


def run(job, wd):
    return _runs.run(job, wd)
