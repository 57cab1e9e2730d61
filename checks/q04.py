"""Q04: the onset set is exactly the station-phases with complete usable data."""
from checks import _data

TRACE = "WaveTrace"
DESIGN = {"quick": [("AvailMC", "AvailMC.cfg")],
          "thorough": [("AvailMC", "AvailMC_T.cfg"), ("ResampleMC", "ResampleMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("waveforms of one to three stations with up to eight channels each (complete, faster, "
        "gapped, overlapping, late, short, flat at several values, partly flat, at a rate that "
        "cannot be decimated), through STALTAOnset.calculate_onsets under random requirements, "
        "channel maps, counts, phases, windows and transforms; availability, order and lengths "
        "are compared with Waveforms, values with the documented formula from the station's own "
        "components.")
TAGS = ["ok", "fast", "gap", "late", "early", "flat", "rate", "overlap", "gapflat", "timespan",
        "all-channels", "gaps-allowed", "part-allowed", "no-data-station", "data-not-asked-for",
        "value", "DataAvailabilityException"]
ASSUMPTIONS = ["values are compared where every component in use is complete"]


def jobs(tier, seed, gens):
    return _data.onset_jobs(tier, seed)


def run(job, wd):
    return _data.run_onsets(job, wd)
