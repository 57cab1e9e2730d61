"""Helpers the drivers share. Imported inside workers only (needs the staged tree)."""
import csv
import os
import pathlib

import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime

DAY0 = UTCDateTime(2021, 3, 1)


def set_base(date):
    """Times are counted from this UTC midnight."""
    global DAY0
    DAY0 = UTCDateTime(date)


def grid_spec(units="km", n=(4, 3, 3), spacing=1.0, lon=-18.0, lat=64.0, depth0=0.0):
    """A small grid of n nodes around (lon, lat); spacing in km whatever the units."""
    from pyproj import Proj, Transformer
    cproj = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
    gproj = Proj(proj="lcc", lon_0=lon, lat_0=lat, lat_1=lat - 0.5, lat_2=lat + 0.5,
                 datum="WGS84", ellps="WGS84", units=units, no_defs=True)
    f = 1.0 if units == "km" else 1000.0
    tr = Transformer.from_proj(gproj, cproj)
    ll = (0.0, 0.0, depth0 * f)
    # a hair inside the last node so that the node count is exact under rounding
    ur = tuple(ll[i] + (n[i] - 1 - 1e-6) * spacing * f for i in range(3))
    return dict(ll_corner=tr.transform(*ll), ur_corner=tr.transform(*ur),
                node_spacing=spacing * f, grid_proj=gproj, coord_proj=cproj)


def stations(names, lon=-18.0, lat=64.0, step=0.004, elev=-0.1):
    k = np.arange(len(names))
    return pd.DataFrame(dict(
        Network="VQ", Name=list(names), Longitude=lon + 0.002 + step * k,
        Latitude=lat + 0.003 + 0.7 * step * ((k * 3) % 5), Elevation=elev))


def mklut(names=("AA", "BB", "CC"), units="km", n=(4, 3, 3), spacing=1.0, vp=5.0, vs=3.0,
          phases=("P", "S"), **kw):
    from quakemigrate.lut import compute_traveltimes
    f = 1.0 if units == "km" else 1000.0
    st = stations(names, elev=-0.1 * f)
    return compute_traveltimes(
        grid_spec(units, n, spacing, **kw), st, method="homogeneous",
        phases=list(phases), vp=vp * f, vs=vs * f)


def write_day_files(run_dir, samples, sr, zfac=1e6, base=None, off=0):
    """Day files in the documented layout, written without the code under test.

    samples: list of (first index, arrays c, n, x, y, z) contiguous segments, indices
    counted from `base`; c, n as values, x, y in degrees, z in grid units.
    """
    base = base or DAY0
    out = pathlib.Path(run_dir) / "detect" / "scanmseed"
    out.mkdir(parents=True, exist_ok=True)
    days = {}
    per = int(round(86400 * sr))
    for i0, c, n, x, y, z in samples:
        lo = i0
        while lo < i0 + len(c):
            d = lo // per
            hi = min((d + 1) * per, i0 + len(c))
            sl = slice(lo - i0, hi - i0)
            for name, arr, f in (("COA", c, 1e5), ("COA_N", n, 1e5), ("X", x, 1e6),
                                 ("Y", y, 1e6), ("Z", z, zfac)):
                days.setdefault(d, Stream()).append(Trace(
                    data=np.round(np.asarray(arr[sl]) * f).astype(np.int32),
                    header=dict(network="NW", station=name, sampling_rate=sr,
                                starttime=base + lo / sr + off / 1000)))
            lo = hi
    for d, st in days.items():
        t = base + 86400 * d
        p = out / f"{t.year}_{t.julday:03d}.scanmseed"
        try:
            st.write(str(p), format="MSEED", encoding="STEIM2")
        except Exception:
            st.write(str(p), format="MSEED", encoding="STEIM1")


def i5(x):
    """A value in units of 1e-5 as an integer; -2**30 for NaN."""
    x = float(x)
    if not np.isfinite(x):
        return -2 ** 30
    return int(round(x * 1e5))


def ms(t, base=None):
    """(milliseconds from base, leftover nanoseconds)."""
    ns = UTCDateTime(t)._ns - (base or DAY0)._ns
    return int(ns // 1_000_000), int(ns % 1_000_000)


def rows_of(path):
    with open(path, newline="") as f:
        r = list(csv.reader(f))
    if not r:
        return [], []
    return r[0], [dict(zip(r[0], x)) for x in r[1:]]


def tree_of(root):
    root = pathlib.Path(root)
    return sorted(str(p.relative_to(root)) for p in root.rglob("*") if p.is_file())
