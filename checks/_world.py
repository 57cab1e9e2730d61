"""A synthetic world: a grid with independently computed node places and traveltimes, an
archive without waveforms and onset functions with prescribed values."""
import numpy as np
from obspy import Stream, UTCDateTime
from obspy.core import AttribDict  # noqa: F401

from vlib import drv


def geometry(lut_spec, st, vp, vs, phases):
    """Node lon/lat/z and traveltimes [node][station-major phase], straight from geometry."""
    from pyproj import Transformer
    fwd = Transformer.from_proj(lut_spec["coord_proj"], lut_spec["grid_proj"])
    inv = Transformer.from_proj(lut_spec["grid_proj"], lut_spec["coord_proj"])
    ll = np.array(fwd.transform(*lut_spec["ll_corner"]))
    ur = np.array(fwd.transform(*lut_spec["ur_corner"]))
    sp = np.array([lut_spec["node_spacing"]] * 3 if np.isscalar(lut_spec["node_spacing"])
                  else lut_spec["node_spacing"], float)
    n = (np.ceil((ur - ll) / sp - 1e-9) + 1).astype(int)
    ijk = np.stack(np.meshgrid(*[np.arange(m) for m in n], indexing="ij"), -1).reshape(-1, 3)
    xyz = ll + ijk * sp
    lon, lat, z = inv.transform(xyz[:, 0], xyz[:, 1], xyz[:, 2])
    tt = {}
    for _, s in st.iterrows():
        x, y, e = fwd.transform(s["Longitude"], s["Latitude"], s["Elevation"])
        d = np.sqrt(((xyz - np.array([x, y, e])) ** 2).sum(1))
        for ph in phases:
            tt[f"{s['Name']}_{ph}"] = d / (vp if ph == "P" else vs)
    return n, np.c_[lon, lat, z], tt


class World:
    """names, phases, LUT and the same things computed independently."""

    def __init__(self, names, n=(3, 2, 2), spacing=1.0, vp=5.0, vs=3.0, units="km",
                 phases=("P", "S"), sr=10, **kw):
        from quakemigrate.lut import compute_traveltimes
        f = 1.0 if units == "km" else 1000.0
        self.units, self.ucf = units, (1000 if units == "km" else 1)
        self.names, self.phases, self.sr = list(names), list(phases), sr
        self.spec = drv.grid_spec(units, n, spacing, **kw)
        self.st = drv.stations(names, elev=-0.1 * f)
        self.n, self.nodes, self.tt = geometry(self.spec, self.st, vp * f, vs * f, phases)
        assert tuple(self.n) == tuple(n), (self.n, n)
        self.lut = compute_traveltimes(self.spec, self.st, method="homogeneous",
                                       phases=list(phases), vp=vp * f, vs=vs * f)
        self.cols = [f"{s}_{p}" for s in self.names for p in self.phases]
        self.tts = np.stack([np.rint(self.tt[c] * sr) for c in self.cols], -1).astype(int)

    def node_of(self, lon, lat, z):
        """1-based flat node index at those coordinates, 0 if none."""
        d = np.abs(self.nodes - np.array([lon, lat, z]))
        # stored to 1e-6 degrees and a millimetre; nodes are > 100 m apart
        zt = 2e-3 if self.ucf == 1000 else 2.0
        ok = np.flatnonzero((d[:, 0] < 3e-6) & (d[:, 1] < 3e-6) & (d[:, 2] < zt))
        return int(ok[0]) + 1 if len(ok) == 1 else 0


class Killed(Exception):
    """Stands for the process being stopped at this point."""


class Archive:
    """What a scan needs of an archive. hook(first, last) may raise."""

    def __init__(self, world, hook, pads=None):
        self.stations = world.st["Name"]
        self.world, self.hook, self.pads = world, hook, pads

    def __str__(self, response_only=False):
        return "prescribed"

    def read_waveform_data(self, starttime, endtime, pre_pad=0.0, post_pad=0.0):
        from quakemigrate.io.data import WaveformData
        a = int(round((starttime - drv.DAY0) * self.world.sr))
        b = int(round((endtime - drv.DAY0) * self.world.sr))
        self.hook(a, b, pre_pad, post_pad)
        d = WaveformData(starttime=starttime, endtime=endtime, stations=self.stations,
                         pre_pad=max(0.0, pre_pad), post_pad=max(0.0, post_pad))
        d.raw_waveforms = Stream()
        d.waveforms = Stream()
        return d


def onset_class():
    """Defined late: quakemigrate is importable in workers only."""
    import quakemigrate.util as util
    from quakemigrate.signal.onsets import Onset
    from quakemigrate.signal.onsets.base import OnsetData

    class Prescribed(Onset):
        """value(col, first, last) -> array of log values; avail(first, last) -> columns."""

        def __init__(self, world, value, avail, order, pre=0.4, floor=None):
            super().__init__(sampling_rate=world.sr)
            self.world, self.value, self.avail, self.order = world, value, avail, order
            self.phases = world.phases
            self._pre_pad = pre

        @property
        def pre_pad(self):
            return self._pre_pad

        @pre_pad.setter
        def pre_pad(self, v):
            self._pre_pad = v

        @property
        def post_pad(self):
            return self._post_pad

        @post_pad.setter
        def post_pad(self, ttmax):
            self._post_pad = np.ceil(ttmax + 0.2)

        def gaussian_halfwidth(self, phase):
            return 0.3

        def __str__(self):
            return "prescribed"

        def calculate_onsets(self, data, log=True, timespan=None):
            w = self.world
            a = int(round((data.starttime - drv.DAY0) * w.sr))
            b = int(round((data.endtime - drv.DAY0) * w.sr))
            have = set(self.avail(a, b))
            availability, rows, per = {}, [], {}
            for col in self.order:
                availability[col] = int(col in have)
                if col in have:
                    x = np.exp(np.asarray(self.value(col, a, b), float))
                    rows.append(x)
                    s, p = col.rsplit("_", 1)
                    per.setdefault(s, {})[p] = x
            if not rows:
                raise util.DataAvailabilityException
            return np.stack(rows), OnsetData(
                onsets=per, phases=w.phases, channel_maps={}, filtered_waveforms={},
                availability=availability, starttime=data.starttime, endtime=data.endtime,
                sampling_rate=w.sr)
    return Prescribed


def exp_table(nmax, smax):
    return [[int(round(100 * np.exp(s / n))) for s in range(smax + 1)]
            for n in range(1, nmax + 1)]


def read_files(run_dir, sr, detail=True):
    """The day files, read without the code under test."""
    import pathlib

    from obspy import read
    out, stray = [], []
    d = pathlib.Path(run_dir) / "detect" / "scanmseed"
    per = 86400 * sr
    for p in sorted(d.glob("*")) if d.is_dir() else []:
        try:
            y, j = p.stem.split("_")
            day = int(round((UTCDateTime(year=int(y), julday=int(j)) - drv.DAY0) / 86400))
            assert p.suffix == ".scanmseed"
        except Exception:
            stray.append(p.name)
            continue
        st = read(str(p))
        st.merge(method=-1)
        by = {}
        for tr in st:
            by.setdefault(tr.stats.station, []).append(tr)
        c = st[0].stats
        first = (c.starttime - drv.DAY0) * sr
        whole = (sorted(by) == ["COA", "COA_N", "X", "Y", "Z"]
                 and all(len(v) == 1 for v in by.values())
                 and all(tr.stats.starttime == c.starttime and tr.stats.npts == c.npts
                         and tr.stats.sampling_rate == sr for tr in st)
                 and abs(first - round(first)) < 1e-4)
        f = dict(day=day, first=int(round(first)), cnt=int(c.npts), whole=bool(whole))
        if detail:
            f["data"] = {k: v[0].data for k, v in by.items()}
        out.append(f)
    return out, stray, per
