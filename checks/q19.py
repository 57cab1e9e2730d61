"""Q19: availability decisions follow the configured requirements."""
from checks import _data

TRACE = "WaveTrace"
DESIGN = {"quick": [("AvailMC", "AvailMC.cfg")], "thorough": [("AvailMC", "AvailMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("streams of up to four channels, each complete, gapped, overlapping, nested, adjacent, "
        "late, short, long, flat, partly flat, shifted below a sample or at another rate, at eight "
        "rates and many window lengths, each asked with all 32 combinations of requirements; "
        "every answer is compared with Waveforms!Available and Good.")
TAGS = ["full", "gap", "overlap", "late", "early", "long", "flat", "flatpiece", "rate", "ratemix",
        "adjacent", "shifted", "nested"]
ASSUMPTIONS = ["one channel has one rate unless the rate is checked"]


def jobs(tier, seed, gens):
    return _data.avail_jobs(tier, seed)


def run(job, wd):
    return _data.run_avail(job, wd)
