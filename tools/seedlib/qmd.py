"""What the demonstrations share: a small grid, synthetic onsets, an archive without data.
Imports the package from the current directory."""
import os
import pathlib
import shutil
import sys
import tempfile

for v in ("PYTHONPATH", "DISPLAY"):
    os.environ.pop(v, None)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PROJ_NETWORK", "OFF")
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import warnings  # noqa: E402

warnings.filterwarnings("ignore")
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from obspy import Stream, Trace, UTCDateTime  # noqa: E402
from pyproj import Proj, Transformer  # noqa: E402

import quakemigrate  # noqa: E402
import quakemigrate.util as util  # noqa: E402
from quakemigrate.lut import compute_traveltimes  # noqa: E402

assert os.path.dirname(os.path.dirname(os.path.abspath(quakemigrate.__file__))) == os.getcwd()
T0 = UTCDateTime(2021, 3, 1)


def lut(names=("AA", "BB", "CC"), n=(4, 3, 3), spacing=1.0, vp=5.0, vs=3.0, phases=("P", "S"),
        lon=-18.0, lat=64.0, **kw):
    cp = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
    gp = Proj(proj="lcc", lon_0=lon, lat_0=lat, lat_1=lat - 0.5, lat_2=lat + 0.5,
              datum="WGS84", ellps="WGS84", units="km", no_defs=True)
    tr = Transformer.from_proj(gp, cp)
    ur = tuple((m - 1 - 1e-6) * spacing for m in n)
    spec = dict(ll_corner=tr.transform(0, 0, 0), ur_corner=tr.transform(*ur),
                node_spacing=spacing, grid_proj=gp, coord_proj=cp)
    return compute_traveltimes(spec, stations(names, lon, lat), method="homogeneous",
                               phases=list(phases), vp=vp, vs=vs, **kw)


def stations(names, lon=-18.0, lat=64.0):
    k = np.arange(len(names))
    return pd.DataFrame(dict(Network="ZZ", Name=list(names), Longitude=lon + .002 + .004 * k,
                             Latitude=lat + .003 + .003 * ((k * 3) % 5), Elevation=-.1))


class Archive:
    """Onsets are made from the sample numbers; `bad(first, last)` -> exception or None."""

    def __init__(self, names, sr, bad=None):
        self.stations, self.sr, self.bad = pd.Series(list(names)), sr, bad or (lambda a, b: None)

    def __str__(self, response_only=False):
        return ""

    def read_waveform_data(self, starttime, endtime, pre_pad=0.0, post_pad=0.0):
        from quakemigrate.io.data import WaveformData
        a, b = (int(round((t - T0) * self.sr)) for t in (starttime, endtime))
        e = self.bad(a, b)
        if e is not None:
            raise e
        d = WaveformData(starttime=starttime, endtime=endtime, stations=self.stations)
        d.raw_waveforms, d.waveforms = Stream(), Stream()
        return d


def onset(sr, names, fun, order=None, have=None, pad=(0.4, 0.2)):
    """fun(station, phase, sample numbers from T0) -> values"""
    from quakemigrate.signal.onsets import Onset
    from quakemigrate.signal.onsets.base import OnsetData

    class O(Onset):
        def __init__(self):
            super().__init__(sampling_rate=sr)
            self.phases = ["P", "S"]
        pre_pad = property(lambda s: pad[0], lambda s, v: None)

        @property
        def post_pad(self):
            return self._pp

        @post_pad.setter
        def post_pad(self, ttmax):
            self._pp = np.ceil(ttmax + pad[1])

        def gaussian_halfwidth(self, phase):
            return 0.3

        def __str__(self):
            return ""

        def calculate_onsets(self, data, log=True, timespan=None):
            a, b = (int(round((t - T0) * sr)) for t in (data.starttime, data.endtime))
            t = np.arange(a, b + 1)
            per, rows, av = {}, [], {}
            for s, p in order or [(s, p) for p in self.phases for s in names]:
                ok = have is None or have(s, p, a, b)
                av[f"{s}_{p}"] = int(ok)
                if ok:
                    rows.append(np.asarray(fun(s, p, t), float))
                    per.setdefault(s, {})[p] = rows[-1]
            if not rows:
                raise util.DataAvailabilityException
            return np.stack(rows), OnsetData(
                onsets=per, phases=self.phases, channel_maps={}, filtered_waveforms={},
                availability=av, starttime=data.starttime, endtime=data.endtime,
                sampling_rate=sr)
    return O()


def noise(s, p, t):
    """A fixed value in [1, 3) for each station, phase and sample."""
    h = sum(ord(c) * 31 ** i for i, c in enumerate(s + p)) % 9973
    x = np.asarray(t, dtype=np.uint64) * np.uint64(2654435761) + np.uint64(h * 40503)
    return 1 + 2 * ((x >> np.uint64(7)) % np.uint64(1000)).astype(float) / 1000


def scan(d, l, names, sr, fun=noise, bad=None, name="run", ons=None, **kw):
    from quakemigrate import QuakeScan
    o = ons or onset(sr, names, fun)
    kw = {"plot_event_summary": False, "timestep": 4.0, **kw}
    return QuakeScan(Archive(names, sr, bad), l, o, str(d), name, **kw)


def day_files(d, segs, sr, name="run", base=T0):
    """segs: (first sample, coa, coa_n, x, y, z)"""
    out = pathlib.Path(d, name, "detect", "scanmseed")
    out.mkdir(parents=True, exist_ok=True)
    per, days = int(86400 * sr), {}
    for i0, *arrs in segs:
        lo, n = i0, len(arrs[0])
        while lo < i0 + n:
            day = lo // per
            hi = min((day + 1) * per, i0 + n)
            for st, arr, f in zip(("COA", "COA_N", "X", "Y", "Z"), arrs,
                                  (1e5, 1e5, 1e6, 1e6, 1e6)):
                days.setdefault(day, Stream()).append(Trace(
                    np.round(np.asarray(arr[lo - i0:hi - i0]) * f).astype(np.int32),
                    dict(network="NW", station=st, sampling_rate=sr, starttime=base + lo / sr)))
            lo = hi
    for day, st in days.items():
        t = base + 86400 * day
        st.write(str(out / f"{t.year}_{t.julday:03d}.scanmseed"), format="MSEED",
                 encoding="STEIM1")


def read_day_files(d, name="run"):
    """station -> {sample time in ns: value}"""
    from obspy import read
    out = {}
    for p in sorted(pathlib.Path(d, name, "detect", "scanmseed").glob("*.scanmseed")):
        for tr in read(str(p)):
            for t, v in zip(tr.times("utcdatetime"), tr.data):
                out.setdefault(tr.stats.station, {}).setdefault(t._ns, []).append(int(v))
    return out


def trigger_file(path, times):
    """A file of triggered events at these times."""
    path = pathlib.Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    pd.DataFrame([dict(
        EventID=t.strftime("%Y%m%d%H%M%S%f")[:17], CoaTime=str(t), TRIG_COA=5.0, COA_X=-18.0,
        COA_Y=64.0, COA_Z=1.0, COA=5.0, COA_NORM=1.0) for t in times]).to_csv(path, index=False)
    return str(path)


def picked(d, l, onsets, sr, lead, mw, picker=None, node=(1, 1, 1), uid="e", phases=("P", "S"),
           **kw):
    """An event at a node, picked from given onsets {station: {phase: values}}; (event, picker).
    The onsets begin `lead` s before the origin time."""
    from quakemigrate.io.core import Run
    from quakemigrate.io.event import Event
    from quakemigrate.signal.onsets import Onset
    from quakemigrate.signal.onsets.base import OnsetData
    from quakemigrate.signal.pickers import GaussianPicker
    first = next(iter(next(iter(onsets.values())).values()))

    class O(Onset):
        def __init__(self):
            super().__init__(sampling_rate=sr)
            self.phases = list(phases)
            self.channel_maps = {"P": "*Z", "S": "*[N,E,1,2]"}
        pre_pad = post_pad = 0.0

        def gaussian_halfwidth(self, phase):
            return 0.1 * sr

        def calculate_onsets(self, data, log=True, timespan=None):
            return None, OnsetData(
                onsets=self.given, phases=self.phases, channel_maps=self.channel_maps,
                filtered_waveforms=Stream(), availability={}, starttime=T0,
                endtime=T0 + (len(first) - 1) / sr, sampling_rate=sr)
    if picker is None:
        picker = GaussianPicker(onset=O(), plot_picks=False, **kw)
    picker.onset.given = onsets
    event = Event(mw)
    event.uid, event.trigger_info, event.otime = uid, {}, T0 + lead
    event.add_spline_location(l.index2coord(list(node))[0])
    event, _ = picker.pick_phases(event, l, Run(d, "picks", "", stage="locate"))
    return event, picker


def main(f):
    """Run f(scratch directory); a returned text is what is wrong."""
    d = tempfile.mkdtemp(prefix="demo_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        r = f(pathlib.Path(d))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    if r:
        print("BROKEN:", r)
        sys.exit(1)
    print("fine")
