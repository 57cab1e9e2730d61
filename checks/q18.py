"""Q18: archive reads return exactly the requested data."""
from checks import _data

TRACE = "ArchiveTrace"
DESIGN = {"quick": [("ArchiveMC", "ArchiveMC.cfg")],
          "thorough": [("ArchiveMC", "ArchiveMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("miniSEED archives in every documented path structure and a custom one, records "
        "continuous, split, gapped, overlapping with equal and with different values, spilling "
        "past midnight, off the sample grid and of several rates, with files of other stations "
        "whose names share a prefix or suffix and files that hold no waveforms; windows with and "
        "without pads around midnights, leap days and year ends, read station by station and all "
        "at once; raw and trimmed streams are compared sample by sample with the archive.")
TAGS = _data.FORMATS + ["all-stations", "other-stations", "mixed-rates", "off-grid", "gap", "split",
        "overlap", "conflict", "spill", "rate", "junk", "pads", "across-midnight", "year-end",
        "ArchiveEmptyException", "DataGapException"]
ASSUMPTIONS = ["windows and pads are whole samples",
               "a sample kept in the file of another day than its own may be missed"]


def jobs(tier, seed, gens):
    return _data.archive_jobs(tier, seed, 18)


def run(job, wd):
    return _data.run_archive(job, wd)
