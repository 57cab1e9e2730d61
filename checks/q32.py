"""Q32: Settings stay valid through every history of assignments."""
import os
import random

from vlib import drv

TRACE = "SettingsTrace"
DESIGN = {"quick": [("SettingsMC", "SettingsMC.cfg")], "thorough": [("SettingsMC", "SettingsMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("Random histories of up to five objects of every kind (trigger, scan, onset, picker, "
        "amplitude, magnitude, archive, grid) in one process: creating them with valid and invalid "
        "arguments under present and earlier names, assigning to every attribute, using them; after "
        "every step every attribute of every object is read back. Station and velocity files with "
        "columns missing, requests for traveltimes with arguments missing, spans the wrong way "
        "round, and scans of phases the lookup table lacks. Settings.tla decides each outcome and "
        "each value.")
TAGS = ["trigger", "scan", "onset", "picker", "amplitude", "magnitude", "archive", "grid", "new-refused",
        "set-refused", "use-refused", "use-ok", "earlier-name", "several-objects", "call-refused", "call-ok",
        "stations-refused", "vmodel-refused", "compute-refused", "compute-ok", "scan-refused", "scan-ok"]
ASSUMPTIONS = ["objects do not share the dictionaries they were made with",
               "a setting is given under one name, not under its earlier name as well",
               "at most one argument of a constructor is invalid"]
CHUNK = 24

BOOLS = [True, False]


def jobs(tier, seed, gens):
    r = random.Random(seed * 32452843 + 32)
    n = 24 if tier == "quick" else 300
    return [dict(seed=r.randrange(1 << 30), n=10) for _ in range(n)]


def milli(x):
    return int(max(-2e9, min(2e9, round(float(x) * 1000))))


# attribute -> (type, values); for setting and for the constructor
ATTR = dict(
    trigger=dict(
        marginal_window=("n", [0.5, 1.0, 2.0, 3.0, 0.0]), min_event_interval=("n", [0.5, 1.0, 2.0, 4.0, 6.0, 9.5]),
        minimum_repeat=("n", [1.0, 2.0, 4.0, 6.0]), static_threshold=("n", [1.0, 2.5]),
        mad_window_length=("n", [600.0]), mad_multiplier=("n", [1.0, 5.0]),
        median_window_length=("n", [60.0]), median_multiplier=("n", [2.0]), pad=("n", [0.0, 60.0]),
        smoothing_kernel_sigma=("n", [0.1]), smoothing_kernel_width=("n", [2.0]),
        threshold_method=("t", ["static", "mad", "median_ratio", "dynamic", "MAD", "", "percentile"]),
        normalise_coalescence=("t", BOOLS), smooth_coa=("t", BOOLS), plot_trigger_summary=("t", BOOLS),
        plot_all_stns=("t", BOOLS), write_event_time_windows=("t", BOOLS)),
    scan=dict(
        timestep=("n", [60.0, 300.0, 7.5]), time_step=("n", [30.0, 750.0]), marginal_window=("n", [1.0, 0.25]),
        threads=("n", [2, 4]), n_cores=("n", [3]), scan_rate=("n", [25]), sampling_rate=("n", [25, 50]),
        plot_event_summary=("t", BOOLS), plot_all_stns=("t", BOOLS), plot_event_video=("t", BOOLS),
        continuous_scanmseed_write=("t", BOOLS), write_cut_waveforms=("t", BOOLS),
        write_real_waveforms=("t", BOOLS), write_wa_waveforms=("t", BOOLS),
        real_waveform_units=("t", ["velocity", "displacement"]),
        wa_waveform_units=("t", ["velocity", "displacement"]), cut_waveform_format=("t", ["SAC"]),
        write_marginal_coalescence=("t", BOOLS), write_coalescence=("t", BOOLS), pre_cut=("t", [1.0, 2.0]),
        post_cut=("t", [3.0])),
    onset=dict(
        position=("t", ["classic", "centred", "center"]), signal_transform=("t", ["energy", "abs", "env",
                                                                                "env_squared", "square"]),
        use_python_backend=("t", BOOLS), all_channels=("t", BOOLS), allow_gaps=("t", BOOLS),
        full_timespan=("t", BOOLS), onset_centred=("t", BOOLS), min_onset_value=("n", [0.2, 0.01, 1.0]),
        sampling_rate=("n", [20, 50, 100]),
        P_filter=("l", [[1.0, 9.0, 2], [2.0, 10.0, 4], [3.0, 25.0, 2]]), S_filter=("l", [[1.0, 5.0, 2], [1.0, 40.0, 3]]),
        p_bp_filter=("l", [[1.5, 8.0, 3], [1.0, 24.0, 2]]), s_bp_filter=("l", [[0.5, 4.0, 2], [1.0, 12.0, 2]]),
        P_window=("l", [[0.1, 0.5], [0.4, 2.0]]), S_window=("l", [[0.3, 0.6], [0.5, 4.0]]),
        p_onset_win=("l", [[0.1, 1.5], [0.2, 0.8]]), s_onset_win=("l", [[0.25, 1.25]])),
    picker=dict(
        threshold_method=("t", ["MAD", "percentile", "mad", "static"]), percentile_pick_threshold=("n", [0.9, 1.0]),
        mad_pick_threshold=("n", [3.0, 5.5]), pick_threshold=("n", [0.9]), plot_picks=("t", [False]),
        write_seed_ids=("t", BOOLS), fraction_tt=("t", [0.1, 0.25])),
    amplitude=dict(
        signal_window=("n", [0.5, 2.0]), noise_window=("n", [1.0, 2.0]), prominence_multiplier=("n", [0.0]),
        filter_corners=("n", [2]), noise_measure=("t", ["RMS", "STD", "ENV", "MAX", "rms"]),
        loc_method=("t", ["spline", "gaussian", "covariance", "mean"])),
    magnitude=dict(
        amp_multiplier=("n", [2.0]), noise_filter=("n", [0.0, 3.0]), use_hyp_dist=("t", BOOLS),
        amp_feature=("t", ["P_amp", "S_amp", "Q_amp"]), weighted_mean=("t", BOOLS), trace_filter=("t", [".*HZ"]),
        station_filter=("t", [["AA"]]), dist_filter=("t", [False, 20.0]), pick_filter=("t", BOOLS),
        r2_only_used=("t", BOOLS)),
    archive=dict(
        water_level=("n", [30.0]), format=("t", ["{station}/x", "{year}/{jday:03d}/{station}*"]),
        read_all_stations=("t", BOOLS), resample=("t", BOOLS), upfactor=("t", [2]), interpolate=("t", BOOLS),
        pre_filt=("t", [(0.1, 0.2, 10.0, 12.0)]), remove_full_response=("t", BOOLS)),
    grid=dict(
        node_count=("l", [[3, 4, 5], [1, 1, 1], [2, 0, 2], [2, 3, -1]]), cell_count=("l", [[6, 5, 4], [0, 1, 1]]),
        node_spacing=("l", [[0.5], [1.0, 2.0, 0.25], [1.0, 2.0], [0.0], [1.0, -1.0, 1.0]]),
        cell_size=("l", [[0.75], [1.5, 0.5, 1.0], [-1.0]])))
FORMATS = ["SeisComp3", "YEAR/JD/*_STATION_*", "YEAR/JD/STATION", "STATION.YEAR.JULIANDAY",
           "/STATION/STATION.YearMonthDay", "YEAR_JD/STATION*", "YEAR_JD/STATION_*"]
EARLIER = {"minimum_repeat", "time_step", "n_cores", "onset_centred", "p_bp_filter", "s_bp_filter", "p_onset_win",
           "s_onset_win", "cell_count", "cell_size"}
PAIRS = [("min_event_interval", "minimum_repeat"), ("timestep", "time_step"), ("threads", "n_cores"),
         ("position", "onset_centred"), ("P_filter", "p_bp_filter"), ("S_filter", "s_bp_filter"),
         ("P_window", "p_onset_win"), ("S_window", "s_onset_win")]


def enc(ty, x):
    if ty == "n":
        return milli(x)
    if ty == "l":
        return [milli(y) for y in x]
    return str(x)


def name_of(e):
    return type(e).__name__


class Obj:
    """A real object of some kind, its attributes by the names of the specification."""

    def __init__(self, kind, env):
        self.kind, self.env, self.o = kind, env, None
        self.attr = dict(ATTR[kind])
        if kind == "amplitude":
            self.attr.update(highpass_filter=("t", None), bandpass_filter=("t", None), highpass_freq=("n", None),
                             bandpass_lowcut=("n", None), bandpass_highcut=("n", None))
        if kind == "onset":
            self.attr["pre_pad"] = ("n", None)
        if kind == "scan":
            self.attr["onset_rate"] = ("n", None)
        if kind == "picker":
            self.attr.pop("pick_threshold")

    def get(self, x):
        o, k = self.o, self.kind
        if k == "onset" and x in ("P_filter", "S_filter"):
            return o.bandpass_filters[x[0]]
        if k == "onset" and x in ("P_window", "S_window"):
            return o.sta_lta_windows[x[0]]
        if k == "scan" and x == "onset_rate":
            return o.onset.sampling_rate
        return getattr(o, x)

    def set(self, x, val):
        o, k = self.o, self.kind
        if k == "onset" and x in ("P_filter", "S_filter"):
            o.bandpass_filters[x[0]] = val
        elif k == "onset" and x in ("P_window", "S_window"):
            o.sta_lta_windows[x[0]] = val
        elif k == "scan" and x == "onset_rate":
            o.onset.sampling_rate = val
        elif x == "path_structure":
            o.path_structure(*val)
        else:
            setattr(o, x, val)

    def reads(self):
        out = dict(n=[], t=[], l=[])
        for x, (ty, _) in self.attr.items():
            try:
                out[ty].append([x, enc(ty, self.get(x))])
            except AttributeError:
                pass
            except (TypeError, ValueError):        # not what it should be
                out[ty].append([x, {"n": -(1 << 30), "t": "?", "l": []}[ty]])
        return out


def pick_args(r, kind, refuse):
    """Valid random arguments {name: value}; refuse: one of them invalid (handled by callers)."""
    a = {}
    for x, (ty, vals) in ATTR[kind].items():
        if vals and r.random() < 0.35:
            a[x] = r.choice(vals)
    for new, old in PAIRS:
        if new in a and old in a:
            a.pop(r.choice([new, old]))
    return a


def run(job, wd):
    import contextlib
    import io

    import numpy as np
    import pandas as pd
    from obspy import Stream, Trace

    import quakemigrate.util as util
    from checks._world import Archive as Stub
    from checks._world import World, onset_class
    from quakemigrate import QuakeScan, Trigger
    from quakemigrate.io import Archive, read_stations, read_vmodel
    from quakemigrate.io.core import Run
    from quakemigrate.io.data import WaveformData
    from quakemigrate.io.event import Event
    from quakemigrate.lut import compute_traveltimes
    from quakemigrate.lut.lut import Grid3D
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.local_mag.amplitude import Amplitude
    from quakemigrate.signal.local_mag.magnitude import Magnitude
    from quakemigrate.signal.onsets import CentredSTALTAOnset, ClassicSTALTAOnset, STALTAOnset
    from quakemigrate.signal.onsets.base import OnsetData
    from quakemigrate.signal.pickers import GaussianPicker
    r = random.Random(job["seed"])
    w = World(["AA", "BB"], n=(2, 2, 2), sr=10)
    deep = World(["AA", "BB"], n=(4, 4, 2), sr=10, depth0=-0.5)      # has its stations inside
    cases, count = [], [0]

    def prescribed():
        return onset_class()(w, lambda c, a, b: np.zeros(b - a + 1), lambda a, b: w.cols, w.cols)

    def empty(a, b, pre, post):
        raise util.ArchiveEmptyException

    def attempt(f, *ok):
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                f()
                return "ok"
            except ok:
                return "ok"
            except Exception as e:
                return name_of(e)

    def make(kind):
        """Create an object: (Obj or None, event)."""
        ob = Obj(kind, None)
        a = pick_args(r, kind, False)
        types = {x: t for x, (t, _) in ATTR[kind].items()}
        count[0] += 1
        kw = dict(a)
        rd = f"r{count[0]}"
        if kind == "trigger":
            bad = r.random()
            iv = "minimum_repeat" if "minimum_repeat" in a else "min_event_interval"
            valid = a.get(iv, 4.0) >= 2 * a.get("marginal_window", 2.0)
            if not valid and a.get("threshold_method", "static") not in ("static", "mad", "median_ratio", "dynamic"):
                kw.pop("threshold_method"), a.pop("threshold_method")
            if not valid and bad < 0.7:
                for d in (kw, a):
                    d["marginal_window"] = 0.25
            f = lambda: Trigger(w.lut, run_path=wd, run_name=rd, **kw)     # noqa: E731
        elif kind == "scan":
            ons = prescribed()
            what = r.choice(["ok"] * 5 + ["onset", "picker", "mags"])
            rate = r.choice([10, 20, 50])
            ons.sampling_rate = rate
            a["onset"], types["onset"] = ("str" if what == "onset" else "onset"), "t"
            a["onset_rate"], types["onset_rate"] = rate, "n"
            arg = "no onset" if what == "onset" else ons
            if what == "picker" or r.random() < 0.4:
                kw["picker"] = "no picker" if what == "picker" else GaussianPicker(onset=ons)
                a["picker"], types["picker"] = ("str" if what == "picker" else "picker"), "t"
            if what == "mags" or r.random() < 0.3:
                kw["mags"] = (Magnitude(dict(A0="UK")) if what == "mags" else
                              LocalMag(dict(signal_window=1.0), dict(A0="UK"), plot_amplitudes=False))
                a["mags"], types["mags"] = ("str" if what == "mags" else "mags"), "t"
            f = lambda: QuakeScan(Stub(w, empty), w.lut, onset=arg, run_path=wd, run_name=rd, **kw)  # noqa: E731
        elif kind == "onset":
            cls = r.choice([STALTAOnset] * 3 + [CentredSTALTAOnset, ClassicSTALTAOnset])
            if r.random() < 0.9:
                a.setdefault("sampling_rate", 50), kw.setdefault("sampling_rate", 50)
                if r.random() < 0.15:
                    a["min_onset_value"] = kw["min_onset_value"] = r.choice([0.009, 0.0, -1.0])
            elif "sampling_rate" in a:
                a.pop("sampling_rate"), kw.pop("sampling_rate")
            a["class"], types["class"] = cls.__name__, "t"
            for key, dflt, pq in (("bandpass_filters", [2.0, 16.0, 2], ("P_filter", "S_filter")),
                                  ("sta_lta_windows", [0.2, 1.0], ("P_window", "S_window"))):
                if any(x in kw for x in pq):
                    for x in pq:
                        old = {"P_filter": "p_bp_filter", "S_filter": "s_bp_filter", "P_window": "p_onset_win",
                               "S_window": "s_onset_win"}[x]
                        if old not in a and x not in a:
                            a[x] = list(dflt)
                    kw[key] = {x[0]: list(kw.pop(x, dflt)) for x in pq}
            f = lambda: cls(**kw)      # noqa: E731
        elif kind == "picker":
            m = a.get("threshold_method", "MAD")
            if m not in ("MAD", "percentile"):
                a.pop("pick_threshold", 0), kw.pop("pick_threshold", 0)
            elif "pick_threshold" in a and r.random() < 0.7:
                a.pop("pick_threshold"), kw.pop("pick_threshold")
            f = lambda: GaussianPicker(onset=w and prescribed(), **kw)     # noqa: E731
        elif kind == "amplitude":
            what = r.choice(["none", "hp", "bp", "hp-", "bp-", "bp--", "both", "wl", "pf", "rf", "off"])
            more = dict(none={}, hp=dict(highpass_filter=True, highpass_freq=2.0),
                        bp=dict(bandpass_filter=True, bandpass_lowcut=2.0, bandpass_highcut=8.0),
                        both=dict(highpass_filter=True, highpass_freq=2.0, bandpass_filter=True,
                                  bandpass_lowcut=2.0, bandpass_highcut=8.0),
                        off=dict(highpass_filter=False, bandpass_filter=False),
                        wl=dict(water_level=60.0), pf=dict(pre_filt=[0.1, 0.2, 8, 9]),
                        rf=dict(remove_full_response=True))
            more["hp-"] = dict(highpass_filter=True)
            more["bp-"] = dict(bandpass_filter=True, bandpass_lowcut=2.0)
            more["bp--"] = dict(bandpass_filter=True, bandpass_highcut=2.0)
            kw.update(more[what])
            a.update(more[what])
            types.update(highpass_filter="t", bandpass_filter="t", highpass_freq="n", bandpass_lowcut="n",
                         bandpass_highcut="n", water_level="n", pre_filt="t", remove_full_response="t")
            f = lambda: Amplitude(kw)      # noqa: E731
        elif kind == "magnitude":
            if r.random() < 0.8:
                kw["A0"] = a["A0"] = "Hutton-Boore"
                types["A0"] = "t"
            f = lambda: Magnitude(kw)      # noqa: E731
        elif kind == "archive":
            kw = {x: y for x, y in kw.items() if x not in ("water_level", "pre_filt", "remove_full_response")}
            rr = {x: a[x] for x in ("water_level", "pre_filt", "remove_full_response") if x in a}
            if rr:
                kw["response_removal_params"] = rr
            if r.random() < 0.6:
                a.pop("format", 0)
                kw.pop("format", 0)
                a["archive_format"] = kw["archive_format"] = r.choice(FORMATS + ["YEAR/STATION", "seiscomp3"])
                types["archive_format"] = "t"
                if r.random() < 0.4:
                    a["channels"] = kw["channels"] = r.choice(["[B,H]H*", "*Z"])
                    types["channels"] = "t"
            f = lambda: Archive(os.path.join(wd, "none"), w.st, **kw)      # noqa: E731
        else:
            size = [r.choice([1.4, 2.7, 3.3]) for _ in range(3)]
            sp = r.choice([[0.5], [1.0], [1.0, 0.5, 2.0], [0.75], [0.0], [1.0, -1.0, 1.0], [1.0, 1.0]])
            from pyproj import Transformer
            tr = Transformer.from_proj(w.spec["grid_proj"], w.spec["coord_proj"])
            a = dict(size=size, node_spacing=sp)
            types = dict(size="l", node_spacing="l")
            f = lambda: Grid3D(tr.transform(0.0, 0.0, 0.0), tr.transform(*size),      # noqa: E731
                               sp if len(sp) > 1 else sp[0], w.spec["grid_proj"], w.spec["coord_proj"])

        def go():
            ob.o = f()
        ev = dict(e="new", kind=kind, n=[], t=[], l=[])
        for x, val in a.items():
            ev[types[x]].append([x, enc(types[x], val)])
        ev["out"] = attempt(go)
        return (ob if ob.o is not None else None), ev

    def assign(ob):
        kind = ob.kind
        if kind == "archive" and r.random() < 0.4:
            val = (r.choice(FORMATS + ["x"]), r.choice(["*", "*Z"]))
            return "path_structure", val, list(val)
        if kind == "scan" and r.random() < 0.15:
            x, ty, val = "onset_rate", "n", r.choice([10, 20, 40])
        else:
            x = r.choice(sorted(ATTR[kind]))
            ty, vals = ATTR[kind][x]
            val = r.choice(vals)
        if isinstance(val, list):
            val = list(val)
        real = val[0] if kind == "grid" and len(val) == 1 else val
        return x, real, enc(ty, val)

    def use(ob):
        o = ob.o
        t0 = drv.DAY0
        if ob.kind == "onset":
            sr = o.sampling_rate
            d = WaveformData(starttime=t0, endtime=t0 + 20, stations=pd.Series(["AA"]))
            rng = np.random.default_rng(1)
            d.waveforms = Stream([Trace(rng.normal(size=20 * int(sr) + 1), header=dict(
                network="VQ", station="AA", channel="HH" + c, starttime=t0, sampling_rate=sr)) for c in "ZNE"])
            return attempt(lambda: o.calculate_onsets(d))
        event = Event(0.5)
        event.uid = "1"
        event.trigger_info = {}
        node = w.nodes[0]
        event.add_spline_location(node)
        event.add_gaussian_location(np.array(node), np.ones(3))
        event.add_covariance_location(np.array(node), np.ones(3))
        event.otime = t0 + 5
        if ob.kind == "picker":
            x = np.random.default_rng(2).gamma(2, 0.5, 600) + 1
            on = prescribed()
            on.channel_maps = {"P": "*Z", "S": "*[N,E,1,2]"}
            given = OnsetData(onsets={"AA": {"P": x, "S": x}}, phases=["P", "S"], channel_maps=on.channel_maps,
                              filtered_waveforms=Stream(), availability={}, starttime=t0, endtime=t0 + 60,
                              sampling_rate=10)
            on.calculate_onsets = lambda data, **k: (None, given)
            o.onset = on
            count[0] += 1
            return attempt(lambda: o.pick_phases(event, w.lut, Run(wd, f"p{count[0]}", "", stage="locate")))
        if ob.kind == "amplitude":
            class Data(WaveformData):
                def get_wa_waveform(self, tr, velocity=False):
                    return tr.copy()
            rng = np.random.default_rng(3)
            st = Stream([Trace(rng.normal(size=4000), header=dict(
                network="VQ", station=s, channel="HH" + c, starttime=t0 - 40, sampling_rate=40))
                for s in w.names for c in "ZNE"])
            event.data = Data(event.otime - 1, event.otime + 1)
            event.data.raw_waveforms = st
            event.add_picks(pd.DataFrame([], columns=["Station", "Phase", "ModelledTime", "PickTime",
                                                      "PickError", "SNR", "Residual"]))
            return attempt(lambda: o.get_amplitudes(event, w.lut))
        if ob.kind == "magnitude":
            am = pd.DataFrame(dict(epi_dist=[5.0], z_dist=[2.0], P_amp=[1.0], P_freq=[5.0], P_time=[t0],
                                   P_avg_amp=[0.1], P_filter_gain=[np.nan], S_amp=[2.0], S_freq=[5.0], S_time=[t0],
                                   S_avg_amp=[0.2], S_filter_gain=[np.nan], Noise_amp=[0.1], is_picked=[True]),
                              index=["VQ.AA..HHZ"])
            return attempt(lambda: o.calculate_magnitudes(am))
        if ob.kind == "archive":
            return attempt(lambda: o.read_waveform_data(t0, t0 + 10), util.ArchiveEmptyException)
        return None

    def call(ob):
        after = r.random() < 0.3
        a, b = (drv.DAY0 + 30, drv.DAY0) if after else (drv.DAY0, drv.DAY0 + 30)
        if after and r.random() < 0.5:
            a, b = str(a), str(b)
        if ob.kind == "trigger":
            stage, given = "trigger", ["start", "end"]
            out = attempt(lambda: ob.o.trigger(a, b, interactive_plot=False), util.NoScanMseedDataException)
        elif r.random() < 0.5:
            stage, given = "detect", ["start", "end"]
            out = attempt(lambda: ob.o.detect(a, b))
        else:
            stage = "locate"
            given = r.choice([[], ["start"], ["end"], ["start", "end"], ["file"], ["start", "end"]])
            kw = dict(start=dict(starttime=a), end=dict(endtime=b), file=dict(
                trigger_file=os.path.join(wd, "no_such_file.csv")))
            arg = {}
            for g in given:
                arg.update(kw[g])
            out = attempt(lambda: ob.o.locate(**arg), util.NoTriggerFilesFound, FileNotFoundError)
            if len(given) < 2:
                after = False
        return dict(e="call", q=dict(stage=stage, given=given, after=after), out=out)

    for rep in range(job["n"]):
        objs, ev, tags = [], [], set()
        kinds = r.choice([list(ATTR), [r.choice(list(ATTR))], r.sample(list(ATTR), 2)])

        def look():
            return [ob.reads() for ob in objs]
        for step in range(r.randint(6, 16)):
            x = r.random()
            if not objs or x < 0.25 and len(objs) < 5:
                kind = r.choice(kinds)
                ob, e = make(kind)
                tags.add(kind)
                if ob:
                    objs.append(ob)
                if e["out"] != "ok":
                    tags.add("new-refused")
                if len(objs) > 1:
                    tags.add("several-objects")
                ev.append(dict(e, reads=look()))
                continue
            i = r.randrange(len(objs))
            ob = objs[i]
            if x < 0.4 and ob.kind not in ("trigger", "scan", "grid"):
                out = use(ob)
                tags.add("use-ok" if out == "ok" else "use-refused")
                ev.append(dict(e="use", i=i + 1, out=out, reads=look()))
            elif x < 0.4 and ob.kind in ("trigger", "scan"):
                e = call(ob)
                tags.add("call-ok" if e["out"] == "ok" else "call-refused")
                ev.append(dict(e, i=i + 1, reads=look()))
            else:
                name, real, val = assign(ob)
                out = attempt(lambda: ob.set(name, real))
                if out != "ok":
                    tags.add("set-refused")
                if name in EARLIER:
                    tags.add("earlier-name")
                ev.append(dict(e="set", i=i + 1, name=name, v=val, out=out, reads=look()))
        # tables and traveltimes
        cols = [c for c in ["Latitude", "Longitude", "Elevation", "Name"] if r.random() < 0.8]
        cols = r.choice([["Latitude", "Longitude", "Elevation", "Name"], cols, [c.lower() for c in cols] or ["x"]])
        cols = r.sample(cols, len(cols)) + r.choice([[], ["Network"], ["Depth"]]) or ["Network"]
        p = os.path.join(wd, f"s{rep}.csv")
        with open(p, "w") as f:
            f.write(",".join(cols) + "\n" + ",".join("1" for _ in cols) + "\n")
        e = dict(e="stations", cols=cols, out=attempt(lambda: read_stations(p)))
        tags.add("stations-refused") if e["out"] != "ok" else 0
        ev.append(e)
        cols = r.choice([["Depth", "Vp", "Vs"], ["Vs", "Depth"], ["depth", "Vp"], ["Vp", "Vs"], ["Depth", "Vp"]])
        with open(p, "w") as f:
            f.write(",".join(cols) + "\n" + ",".join("5.0" if c[0] == "V" else "-9" for c in cols) + "\n"
                    + ",".join("6.0" if c[0] == "V" else "9" for c in cols) + "\n")
        vm = {}
        e = dict(e="vmodel", cols=cols, out=attempt(lambda: vm.update(m=read_vmodel(p))))
        tags.add("vmodel-refused") if e["out"] != "ok" else 0
        ev.append(e)
        phases = r.choice([["P", "S"], ["S"], ["P"], ["S", "P"]])
        method = r.choice(["homogeneous", "homogeneous", "1dfmm", "3dfmm", "1dNLLoc", "straight", "1dnlloc",
                           "1dsweep", "1dfmm"])
        args = {}
        if r.random() < 0.8:
            args["vp"] = 5.0
        if r.random() < 0.8:
            args["vs"] = 3.0
        if "m" in vm and method in ("1dfmm",) and r.random() < 0.8:
            args["vmod"] = vm["m"]
        table = []

        def go():
            lut = compute_traveltimes(wc.spec, wc.st, method=method, phases=list(phases), **args)
            table.append(lut)
        wc = r.choice([w, deep, deep])
        q = dict(method=method, outside=wc is w, phases=["p" if x == "P" else "s" for x in phases],
                 args=[x[1:] for x in args], cols=[c[1:] for c in cols if c[0] == "V"])
        e = dict(e="compute", q=q, out=attempt(go))
        tags.add("compute-ok" if e["out"] == "ok" else "compute-refused")
        ev.append(e)
        # scanning phases the table has, or lacks
        have = r.choice([["P", "S"], ["P"], ["S"]])
        want = r.choice([["P", "S"], ["P"], ["S"]])
        lut = compute_traveltimes(w.spec, w.st, method="homogeneous", phases=have, vp=5.0, vs=3.0)
        order = [f"{s}_{p}" for p in want for s in w.names]
        ons = onset_class()(w, lambda c, a, b: np.zeros(b - a + 1), lambda a, b: order, order)
        ons.phases = want
        count[0] += 1
        e = dict(e="scan", phases=want, table=have, out=attempt(lambda: QuakeScan(
            Stub(w, lambda *a: None), lut, onset=ons, run_path=wd, run_name=f"d{count[0]}",
            timestep=2.0).detect(drv.DAY0 + 100, drv.DAY0 + 102)))
        tags.add("scan-ok" if e["out"] == "ok" else "scan-refused")
        ev.append(e)
        cases.append(dict(key=f"{job['seed']}-{rep}", ev=ev, note=dict(tags=sorted(tags))))
    return cases
