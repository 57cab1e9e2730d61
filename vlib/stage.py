"""Stages /repo's working tree: copies the package and compiles the C library.

The checks never import from /repo itself: they copy `quakemigrate/` (without any
compiled library) to a scratch directory and build the C sources there, so a run sees
the current tree and leaves it untouched.
"""
import glob
import os
import shutil
import subprocess
import sysconfig

REPO = os.environ.get("VQ_REPO", "/repo")


class BuildError(Exception):
    pass


def stage(root):
    """Copy the package below `root`, compile the C library, return the import dir."""
    dst = os.path.join(root, "tree")
    os.makedirs(dst)
    shutil.copytree(
        os.path.join(REPO, "quakemigrate"), os.path.join(dst, "quakemigrate"),
        ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc", "*.o"))
    src = os.path.join(dst, "quakemigrate", "core", "src")
    so = os.path.join(src, "qmlib" + sysconfig.get_config_var("EXT_SUFFIX"))
    cmd = ["gcc", "-shared", "-fPIC", "-fopenmp", "-Ofast", "-I", src,
           "-I", sysconfig.get_paths()["include"], "-o", so,
           *sorted(glob.glob(os.path.join(src, "*.c"))), "-lm", "-lgomp"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("cannot build the C library:\n" + r.stderr)
    return dst
