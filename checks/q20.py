"""Q20: resampling brings every trace to the target rate on the shared grid."""
from checks import _data

TRACE = "WaveTrace"
DESIGN = {"quick": [("ResampleMC", "ResampleMC.cfg")],
          "thorough": [("ResampleMC", "ResampleMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("streams of one to four traces at ten rates, complete, starting or ending anywhere in the "
        "window and around it, brought to five target rates by decimation and by interpolation "
        "with usable and unusable factors; traces anywhere between grid points shifted by timing "
        "and by interpolation; archives off the grid read through Archive. Times, counts, rates "
        "and (slow cosines) values are compared with Waveforms.")
TAGS = ["same", "decimate", "left", "bad", "interpolate", "start-off-target-grid", "values",
        "BadUpfactorException", "on-grid", "back", "forward", "interpolated", "retimed",
        "off-grid"]
ASSUMPTIONS = ["rates whose sampling interval is a whole number of microseconds",
               "the window starts on the target grid, the data on their own grid"]


def jobs(tier, seed, gens):
    return _data.resample_jobs(tier, seed)


def run(job, wd):
    if job["kind"] == "archive":
        return [dict(c, module="ArchiveTrace") for c in _data.run_archive(job, wd, job["chk"])]
    return (_data.run_shift if job["kind"] == "shift" else _data.run_resample)(job, wd)
