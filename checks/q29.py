"""Q29: Run outputs are confined to their own run, stage and sub-run."""
from checks import _runs

TRACE = "RunsTrace"
DESIGN = {"quick": [("RunsMC", "RunsMC.cfg")], "thorough": [("RunsMC", "RunsMC_T.cfg")]}
LEVEL = "model_checking"
RULE = (
        "Histories of 9 to 16 calls of detect, trigger and locate in one process on real "
        "waveforms (STA/LTA onsets, autopicks, magnitudes, maps, cut waveforms), 2 or 3 runs "
        "with 1 to 3 sub-runs whose names resemble each other, have dots, brackets, braces and "
        "spaces, or are names of stages and files; operations repeated with the same and new "
        "objects, after others, under other names; shared lookup tables, archives, onsets, "
        "pickers and magnitudes; spans over midnight, windows the wrong way round, given "
        "trigger files, plots, log files. Every file of the common directory is followed: "
        "Runs.tla decides which ones an operation may touch and that equal inputs give equal "
        "contents.")
TAGS = ["again", "detect", "log", "made-between", "raised", "same-object", "trigger", "triggered",
        "two-days", "dots", "given-file", "locate", "located", "plots", "onset-shared-by-tables",
        "magnitudes", "parent-and-sub", "similar-names"]
ASSUMPTIONS = ["names are single path components"]
CHUNK = 8


def jobs(tier, seed, gens):
    return _runs.jobs(tier, seed, 29, many=True)


def run(job, wd):
    return _runs.run(job, wd)
