"""Runs the driver jobs of one check against the staged tree (one process per slice)."""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings


def main():
    check, tier, seed, tree, scratch, jobs_file, out_file = sys.argv[1:8]
    sys.path.insert(0, tree)
    warnings.simplefilter("ignore")
    mod = importlib.import_module(f"checks.{check}")
    import quakemigrate
    assert os.path.dirname(quakemigrate.__file__) == os.path.join(tree, "quakemigrate")
    import logging
    logging.disable(logging.CRITICAL)
    jobs = json.load(open(jobs_file))
    devnull = open(os.devnull, "w")
    out = open(out_file, "a")
    limit = getattr(mod, "JOB_LIMIT_S", 240)

    class Hang(BaseException):
        pass

    def on_alarm(*_):
        raise Hang

    signal.signal(signal.SIGALRM, on_alarm)
    for idx, job in jobs:
        out.write(json.dumps({"start": idx}) + "\n")
        out.flush()
        wd = os.path.join(scratch, f"job_{os.getpid()}_{idx}")
        os.makedirs(wd)
        os.chdir(wd)
        stdout = sys.stdout
        sys.stdout = devnull
        signal.alarm(limit)
        try:
            cases = mod.run(job, wd)
        except Hang:
            cases = [dict(key=f"job{idx}", job=job,
                          ev=[dict(e="hang", what="no result within the job's limit")])]
        except Exception as e:  # noqa: BLE001  anything the tree raised unexpectedly
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-4:]
            cases = [dict(key=f"job{idx}", job=job,
                          ev=[dict(e="exception", type=type(e).__name__,
                                   msg=str(e)[:300], where=where)])]
        finally:
            signal.alarm(0)
            sys.stdout = stdout
        for c in cases:
            c.setdefault("key", f"job{idx}")
            c.setdefault("job", job)
        out.write(json.dumps({"done": idx, "cases": cases}, default=lambda x: x.item()) + "\n")
        out.flush()
        os.chdir("/")
        import shutil
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    main()
