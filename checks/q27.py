"""Q27: Cut waveform files hold the requested window, type and units of this event."""
import os
import pathlib
import random

from vlib import drv

TRACE = "CutWaveTrace"
DESIGN = {"quick": [("CutWaveMC", "CutWaveMC.cfg")], "thorough": [("CutWaveMC", "CutWaveMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("write_cut_waveforms in random sequences of 2 to 6 requests and measurements on one event: "
        "every type, units, pre- and post-cut (none, between samples, beyond the data), traces with "
        "gaps, off-sample, late, short, wholly or partly constant, integer and float, without a "
        "response or before its epoch; full and partial response removal, pre-filters, water "
        "levels; miniSEED and pickle. Each file is read back, its window found in the raw trace "
        "and its contents compared with every type and units made independently from that window. "
        "And through QuakeScan.locate from day files, with and without magnitudes and cuts.")
TAGS = ["raw", "real", "wa", "displacement", "velocity", "pre", "post", "uncut", "beyond", "gap",
        "flat", "partly-flat", "no-response", "epoch", "late", "short", "off-sample", "full",
        "pre-filter", "measured", "repeated", "MSEED", "PICKLE", "SAC", "no-inventory", "locate",
        "locate-mags", "locate-extra-stations", "locate-midnight"]
ASSUMPTIONS = ["responses describe velocity sensors",
               "windows are kept to the nearest sample"]
CHUNK = 16


def jobs(tier, seed, gens):
    r = random.Random(seed * 86028121 + 27)
    n, m = (16, 8) if tier == "quick" else (200, 80)
    return ([dict(kind="direct", seed=r.randrange(1 << 30), n=12) for _ in range(n)]
            + [dict(kind="locate", seed=r.randrange(1 << 30), n=3) for _ in range(m)])


def run(job, wd):
    return (direct if job["kind"] == "direct" else locate)(job, wd)


def response(r):
    from obspy.core.inventory.response import Response
    z, p = r.choice([([0j, 0j], [-4.44 + 4.44j, -4.44 - 4.44j]),
                     ([0j, 0j, 0j], [-0.15 + 0.15j, -0.15 - 0.15j, -8.0]),
                     ([0j, 0j], [-0.037 + 0.037j, -0.037 - 0.037j, -160 + 80j, -160 - 80j])])
    return Response.from_paz(zeros=list(z), poles=list(p), stage_gain=r.choice([5e8, 3e3, 1.2e9]),
                             stage_gain_frequency=1.0, input_units="M/S", output_units="COUNTS",
                             normalization_frequency=r.choice([1.0, 5.0]))


def inventory(chans, start=None):
    """chans: {seed id: response}."""
    from obspy.core.inventory import Channel, Inventory, Network, Station
    nets = {}
    for i, (resp, since) in chans.items():
        n, s, l, c = i.split(".")
        nets.setdefault(n, {}).setdefault(s, []).append(
            Channel(c, l, 0, 0, 0, 0, response=resp, start_date=since))
    return Inventory([Network(n, [Station(s, 0, 0, 0, channels=c) for s, c in d.items()])
                      for n, d in nets.items()])


def made(tr, inv, pre_filt, water, full):
    """{contents: samples} made from a trace, without the code under test."""
    import numpy as np
    out = {"raw": np.asarray(tr.data, float)}
    for u in ("displacement", "velocity"):
        t = tr.copy().detrend("linear")
        if full:
            t.remove_response(inventory=inv, output="VEL" if u == "velocity" else "DISP",
                              pre_filt=pre_filt, water_level=water, taper=True)
        else:
            resp = inv.get_response(tr.id, tr.stats.starttime)
            p = resp.get_paz()
            t.simulate(paz_remove=dict(
                poles=list(p.poles), zeros=list(p.zeros) + ([0j] if u == "displacement" else []),
                gain=p.normalization_factor, sensitivity=resp.instrument_sensitivity.value),
                pre_filt=pre_filt, water_level=water, taper=True, sacsim=True, pitsasim=False)
        out["real-" + u] = t.data.copy()
        # the Wood-Anderson recipe starts from the detrended trace
        t2 = tr.copy().detrend("linear").detrend("linear")
        if full:
            t2.remove_response(inventory=inv, output="VEL" if u == "velocity" else "DISP",
                               pre_filt=pre_filt, water_level=water, taper=True)
        else:
            t2 = t
        t2.simulate(paz_simulate=dict(poles=[-6.283185 - 4.712j, -6.283185 + 4.712j],
                                      zeros=[0j, 0j], sensitivity=2080.0, gain=1.0),
                    pre_filt=pre_filt, water_level=water, taper=True, sacsim=True, pitsasim=False)
        out["wa-" + u] = t2.data.copy()
    return out


def longest(d):
    """First and last of the longest stretch of one value."""
    best, a = (0, -1), 0
    for k in range(1, len(d) + 1):
        if k == len(d) or d[k] != d[a]:
            if k - a > best[1] - best[0] + 1:
                best = (a, k - 1)
            a = k
    return best if best[1] > best[0] else (0, -1)


def us(t, ref):
    return int(round((t._ns - ref._ns) / 1000))


def raw_record(tr, otime, resp):
    c0, c1 = longest(tr.data)
    return dict(t0=us(tr.stats.starttime, otime), n=int(tr.stats.npts),
                dt=int(round(1e6 / tr.stats.sampling_rate)), resp=bool(resp), c0=int(c0), c1=int(c1))


def look(path, raws, otime, resp_of, inv, par, tol=1e-5):
    """What a file holds, in terms of the raw traces."""
    import numpy as np
    from obspy import read
    got, stray = [], 0
    # SAC files hold one trace: several are numbered
    paths = [path] if path.exists() else sorted(path.parent.glob(path.stem + "*.sac"))
    for tr in [x for y in paths for x in read(str(y))]:
        if tr.stats.npts == 0:
            continue
        hit = None
        for i, q in enumerate(raws):
            k = (tr.stats.starttime._ns - q.stats.starttime._ns) / 1e9 * q.stats.sampling_rate
            if (tr.id == q.id and abs(tr.stats.sampling_rate / q.stats.sampling_rate - 1) < 1e-6
                    and abs(k - round(k)) < 0.05 and round(k) >= 0
                    and round(k) + tr.stats.npts <= q.stats.npts):
                hit = (i, int(round(k)))
        if hit is None:
            stray += 1
            continue
        i, k = hit
        w = raws[i].copy()
        w.data = w.data[k:k + tr.stats.npts].copy()
        w.stats.starttime = raws[i].stats.starttime + k / raws[i].stats.sampling_rate
        try:
            ref = made(w, inv, *par) if resp_of(w) else {"raw": np.asarray(w.data, float)}
        except Exception:
            ref = {"raw": np.asarray(w.data, float)}
        labels = []
        y = np.asarray(tr.data, float)
        for name, x in ref.items():
            if len(x) == len(y) and np.allclose(y, x, rtol=0, equal_nan=True,
                                                atol=tol * (np.nanmax(np.abs(x)) if len(x) else 0)):
                labels.append(name)
        if len(y) <= 2:     # nothing but rounding errors is left of two samples
            labels = list(ref)
        got.append([i + 1, k, k + int(tr.stats.npts) - 1, labels])
    return got, stray


def req(r, sr, span):
    q = dict(type=r.choice(["raw", "real", "real", "wa", "wa"]),
             units=r.choice(["displacement", "velocity"]), pre=0, post=0)
    for k in ("pre", "post"):
        x = r.random()
        if x < 0.35:
            continue
        if x < 0.55:
            q[k] = r.randint(1, span) * 10 ** 6
        elif x < 0.8:
            q[k] = int(round(r.uniform(1, span) * 1000)) * 1000
        else:
            q[k] = r.randint(2 * span, 4 * span) * 10 ** 6
    return q


def tag(q, tags, span):
    tags |= {q["type"]} | ({q["units"]} if q["type"] != "raw" else set())
    tags |= {k for k in ("pre", "post") if q[k]} | ({"beyond"} if max(q["pre"], q["post"]) > 2 * span * 10 ** 6 else set())
    if not q["pre"] and not q["post"]:
        tags.add("uncut")


def direct(job, wd):
    import numpy as np
    from obspy import Stream, Trace

    import quakemigrate.util as util
    from quakemigrate.io.core import Run
    from quakemigrate.io.cut_waveforms import write_cut_waveforms
    from quakemigrate.io.data import WaveformData
    from quakemigrate.io.event import Event
    r = random.Random(job["seed"])
    rng = np.random.default_rng(job["seed"])
    cases = []
    for rep in range(job["n"]):
        tags, ev = set(), []
        ot = drv.DAY0 + r.randrange(10 ** 6, 86400 * 10 ** 3) / 1e3
        span = 12
        st, chans = Stream(), {}
        for s in range(r.randint(1, 3)):
            sr = r.choice([20, 25, 40, 50])
            off = r.choice([0.0, 0.0, r.randrange(1000) / 1000 / sr])
            if off:
                tags.add("off-sample")
            for c in r.sample("ZNE", r.randint(1, 2)):
                i = f"VQ.S{s}.{r.choice(['', '00'])}.HH{c}"
                a = int((-r.choice([span, span, 8]) + r.random()) * sr)
                b = int((r.choice([span, span, 9]) + r.random()) * sr)
                x = r.random()
                if x < 0.12:
                    a, b = int(3 * sr), int(span * sr)
                    tags.add("late")
                elif x < 0.22:
                    b = a + r.randint(1, 2 * sr)
                    tags.add("short")
                y = rng.normal(0, 1000, b - a + 1)
                z = r.random()
                if z < 0.08:
                    y[:] = 17.0
                    tags.add("flat")
                elif z < 0.22:
                    y[: (b - a) * 2 // 3] = 5.0
                    tags.add("partly-flat")
                y = y.astype(r.choice([np.int32, np.int32, np.float32, np.float64]))
                start = ot + round(a / sr + off, 6)
                pieces = [(0, len(y))]
                if r.random() < 0.3 and len(y) > 6 * sr:
                    g = r.randint(2 * sr, len(y) - 3 * sr)
                    pieces = [(0, g), (g + r.randint(1, sr), len(y))]
                    tags.add("gap")
                for p, q in pieces:
                    st.append(Trace(y[p:q].copy(), header=dict(
                        network="VQ", station=f"S{s}", location=i.split(".")[2], channel=f"HH{c}",
                        sampling_rate=sr, starttime=start + p / sr)))
                x = r.random()
                if x < 0.75:
                    chans[i] = (response(r), ot - 86400)
                elif x < 0.85:
                    chans[i] = (response(r), ot + 86400)
                    tags.add("epoch")
                else:
                    tags.add("no-response")
        par = (r.choice([None, None, (0.05, 0.1, 8.0, 9.5)]), r.choice([60.0, 60.0, 30.0]),
               r.random() < 0.4)
        if par[0]:
            tags.add("pre-filter")
        if par[2]:
            tags.add("full")
        inv = inventory(chans) if chans and r.random() < 0.93 else None
        if inv is None:
            tags.add("no-inventory")

        def has(t):
            return inv is not None and t.id in chans and chans[t.id][1] < t.stats.starttime

        event = Event(1.0)
        event.uid = f"77{rep:03d}"
        event.otime = ot
        data = WaveformData(ot - span, ot + span, response_inv=inv, pre_filt=par[0],
                            water_level=par[1], remove_full_response=par[2])
        data.raw_waveforms = st.copy()
        event.data = data
        sub = r.choice(["", "s1"])
        run_ = Run(wd, f"cut{rep}", sub, stage="locate")
        base = pathlib.Path(wd, f"cut{rep}", "locate", sub)
        seen = []
        for _ in range(r.randint(2, 6)):
            if r.random() < 0.25 and inv is not None:
                cut = st[r.randrange(len(st))].copy()
                cut.trim(ot - r.choice([1, 4]), ot + r.choice([2, 5]))
                if cut.stats.npts > 1:
                    try:
                        (data.get_wa_waveform if r.random() < 0.6 else data.get_real_waveform)(
                            cut, velocity=r.random() < 0.5)
                        tags.add("measured")
                    except (util.ResponseNotFoundError, util.ResponseRemovalError):
                        pass
                    ev.append(dict(e="measure"))
                continue
            q = r.choice(seen) if seen and r.random() < 0.3 else req(r, 20, span)
            if q in seen:
                tags.add("repeated")
            seen.append(q)
            tag(q, tags, span)
            fmt = r.choice(["MSEED", "MSEED", "PICKLE", "SAC"])
            tags.add(fmt)
            kw = dict(waveform_type=q["type"], units=q["units"])
            if q["type"] == "raw" and r.random() < 0.5:
                kw = {}
            for k in ("pre", "post"):
                if q[k] or r.random() < 0.5:
                    kw[k + "_cut"] = q[k] / 1e6 if q[k] else r.choice([0.0, None])
            p = base / f"{q['type']}_cut_waveforms" / (event.uid + (
                {"MSEED": ".m", "SAC": ".sac"}.get(fmt, ".waveforms")))
            raised = False
            try:
                write_cut_waveforms(run_, event, fmt, **kw)
            except AttributeError:
                raised = True
            got, stray = look(p, st, ot, has, inv, par)
            ev.append(dict(e="write", q=q, got=got, stray=stray, raised=raised,
                           inv=inv is not None))
            for x in [p, *p.parent.glob(p.stem + "*.sac")]:
                x.unlink(missing_ok=True)
        ev.append(dict(e="end", files=sum(x.is_file() for x in base.rglob("*"))))
        cases.append(dict(key=f"cut-{rep}", raw=[raw_record(t, ot, has(t)) for t in st], ev=ev,
                          note=dict(tags=sorted(tags))))
    return cases


def locate(job, wd):
    import numpy as np
    from obspy import Stream, Trace, UTCDateTime

    from checks import _locate
    from checks._world import World, onset_class
    from quakemigrate.io.data import Archive
    from quakemigrate.signal import QuakeScan
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.pickers import GaussianPicker
    cases = []
    r = random.Random(job["seed"])
    rng = np.random.default_rng(job["seed"])
    for rep in range(job["n"]):
        tags, ev = {"locate"}, []
        w = World(["S0", "S1", "S2"][:r.randint(2, 3)], n=(3, 3, 2), spacing=1.0, sr=10)
        dt, mw = 0.1, 10
        k0 = r.choice([40000, 863940, 864030])      # scan samples since the base day
        if k0 > 50000:
            tags.add("locate-midnight")
        ne = r.randint(1, 2)
        evs = [dict(t=k0 + 700 * i, off=0, node=r.randrange(len(w.nodes))) for i in range(ne)]
        on, lo, hi = _locate.onsets_of(dict(sr=10, mw=mw, seed=job["seed"]), w, evs)
        for e in evs:
            t = drv.DAY0 + e["t"] / 10
            x, y, z = w.nodes[e["node"]]
            e.update(time=t, uid=_locate.uid_of(t), x=x, y=y, z=z, trig=200000, coa=200000,
                     norm=200000)
        rd = os.path.join(wd, f"l{rep}")
        _locate.write_trigger(os.path.join(rd, "r"), "r", "", evs)
        # data from well before to well after all events
        a0, b0 = k0 / 10 - 150, k0 / 10 + 220
        root = pathlib.Path(rd, "archive")
        st, chans = Stream(), {}
        extra = r.random() < 0.4
        if extra:
            tags.add("locate-extra-stations")
        for s in w.names + ["X9"]:
            sr = r.choice([20, 50])
            for c in r.sample("ZNE", r.randint(1, 3)):
                cut = [a0, b0]
                if r.random() < 0.15:
                    cut[0] = k0 / 10 - r.choice([3, 6])
                    tags.add("late")
                na, nb = int(cut[0] * sr), int(cut[1] * sr)
                y = rng.normal(0, 1000, nb - na + 1).astype(np.int32)
                tr = Trace(y, header=dict(network="VQ", station=s, channel="HH" + c,
                                          sampling_rate=sr, starttime=drv.DAY0 + na / sr))
                for d in (0, 1):
                    u = drv.DAY0 + 86400 * d
                    t = tr.slice(u, u + 86400 - 1 / sr)
                    if t.stats.npts:
                        p = root / f"{u.year}" / f"{u.julday:03d}" / f"VQ_{s}_HH{c}.m"
                        p.parent.mkdir(parents=True, exist_ok=True)
                        t.write(str(p), format="MSEED")
                if s != "X9" or extra:
                    st.append(tr)
                if r.random() < 0.85:
                    chans[tr.id] = (response(r), None)
                else:
                    tags.add("no-response")
        chans["VQ.ZZ..HHZ"] = (response(r), None)
        inv = inventory(chans)
        par = (r.choice([None, (0.05, 0.1, 8.0, 9.5)]), 60.0, r.random() < 0.3)
        if par[2]:
            tags.add("full")
        read_by = []

        class Reader(Archive):
            def read_waveform_data(self, *a, **k):
                d = super().read_waveform_data(*a, **k)
                read_by.append({t.id: (t.stats.starttime, t.stats.endtime) for t in d.raw_waveforms})
                return d

        arch = Reader(str(root), w.st, archive_format="YEAR/JD/*_STATION_*", response_inv=inv,
                      read_all_stations=extra, response_removal_params=dict(
                          water_level=par[1], pre_filt=par[0], remove_full_response=par[2]))
        ons = onset_class()(w, lambda c, a, b: on[c][a - lo:b + 1 - lo], lambda a, b: w.cols,
                            list(w.cols))
        mags = None
        if r.random() < 0.5:
            mags = LocalMag(dict(signal_window=r.choice([0.0, 2.0]), noise_window=r.choice([1.0, 10.0])),
                            dict(A0="Hutton-Boore"), plot_amplitudes=False)
            tags.add("locate-mags")
        ru, wu = (r.choice(["displacement", "velocity"]) for _ in range(2))
        kinds = [k for k in ("raw", "real", "wa") if r.random() < 0.75] or ["wa"]
        pre, post = (r.choice([0, 0, 4 * 10 ** 6, 13123 * 1000, 40 * 10 ** 6]) for _ in range(2))
        cuts = {k: v / 1e6 for k, v in (("pre_cut", pre), ("post_cut", post)) if v}
        given = r.random() < 0.5
        scan = QuakeScan(arch, w.lut, ons, rd, "r", log=False, marginal_window=mw * dt,
                         picker=GaussianPicker(onset=ons, plot_picks=False), mags=mags,
                         plot_event_summary=False, write_cut_waveforms="raw" in kinds,
                         write_real_waveforms="real" in kinds, write_wa_waveforms="wa" in kinds,
                         real_waveform_units=ru, wa_waveform_units=wu,
                         **(cuts if given else {}))
        if not given:
            for k, v in cuts.items():
                setattr(scan, k, v)
        scan.locate(str(evs[0]["time"] - 5), str(evs[-1]["time"] + 5))
        base = pathlib.Path(rd, "r", "locate")
        out, stray_files = _locate.outputs(base)
        n = 0
        for ie, e in enumerate(evs):
            f = out["events"].get(e["uid"])
            if f is None:
                continue
            ot = UTCDateTime(drv.rows_of(f)[1][0]["DT"])
            raws, ev = Stream(), []
            rb = read_by[ie]
            for t in st:
                a, b = t.stats.starttime, t.stats.endtime
                if not pre:
                    a = rb[t.id][0] if t.id in rb else b + 1
                if not post:
                    b = rb[t.id][1] if t.id in rb else a - 1
                k = t.slice(a, b, nearest_sample=True)
                if k.stats.npts:
                    raws.append(k.copy())
            has = lambda t: t.id in chans  # noqa: E731
            for k in kinds:
                q = dict(type=k, units=dict(raw="displacement", real=ru, wa=wu)[k], pre=pre, post=post)
                tag(q, tags, 12)
                p = base / f"{k}_cut_waveforms" / f"{e['uid']}.m"
                n += p.exists()
                got, stray = look(p, raws, ot, has, inv, par)
                ev.append(dict(e="write", q=q, got=got, stray=stray, raised=False, inv=True))
            cases.append(dict(key=f"locate-{rep}-{ie}", raw=[raw_record(t, ot, has(t)) for t in raws],
                              ev=ev, note=dict(tags=sorted(tags))))
        if cases:
            left = [p for p in base.glob("*_cut_waveforms/*")]
            cases[-1]["ev"].append(dict(e="end", files=len(left) - n))
    return cases
