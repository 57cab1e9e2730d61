"""Q25: Amplitudes are measured in the right windows, one row per component."""
import os
import random

from vlib import drv

TRACE = "AmplitudeTrace"
DESIGN = {"quick": [("AmplitudeMC", "AmplitudeMC.cfg")], "thorough": [("AmplitudeMC", "AmplitudeMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("Amplitude.get_amplitudes on random events: 1 to 4 stations in tables with any index, "
        "components complete, absent, in two pieces (inside and outside the needed window), "
        "duplicated under another code, starting late or ending early, without response; picks of "
        "every kind (none, no pick, P only, S only, both, out of order, early and late), windows that "
        "overlap, touch and are far apart, signal windows, all noise measures, no filter, high-pass, "
        "band-pass and band-pass beyond Nyquist; random, short-period, ramped and dead data; every "
        "row, window, swing, time, period, gain and average judged by Amplitude.tla. The output "
        "file is read back. Some events are given a known ground displacement recorded through an "
        "instrument response.")
TAGS = ["complete", "missing", "gap", "gap-outside", "duplicate", "late", "early", "no-response",
        "no-rows", "no-pick", "pick-P", "pick-S", "pick-both", "phase-missing", "out-of-order",
        "overlap", "touch", "apart", "RMS", "STD", "ENV", "unfiltered", "highpass", "bandpass",
        "bandpass-nyquist", "dead", "ramp", "odd-index", "km", "m", "gaussian", "covariance", "file",
        "physical", "physical-full", "signal-window", "measured"]
ASSUMPTIONS = ["prominence_multiplier is 0", "the P window does not come out empty (Vp/Vs below 3)"]
CHUNK = 12


def jobs(tier, seed, gens):
    r = random.Random(seed * 6700417 + 25)
    return [dict(seed=r.randrange(1 << 30), n=14, phys=k % 4 == 0)
            for k in range(24 if tier == "quick" else 320)]


def detrend(y):
    import numpy as np
    k = np.arange(len(y)) - (len(y) - 1) / 2
    y = np.asarray(y, float) - np.mean(y)
    return y - k * (k @ y) / (k @ k) if len(y) > 1 else y


def average(y, how):
    import numpy as np
    y = detrend(y)
    if how == "ENV":
        n = len(y)
        h = np.zeros(n)
        h[0] = 1
        h[1:(n + 1) // 2] = 2
        if n % 2 == 0:
            h[n // 2] = 1
        return float(np.mean(np.abs(np.fft.ifft(np.fft.fft(y) * h))))
    return float(np.sqrt(np.mean((y - np.mean(y)) ** 2)))


def filtered(y, kind, freqs, corners, sr):
    """Detrended, tapered, filtered forwards once; and the gain at half a period of N samples."""
    import numpy as np
    from obspy import Trace
    from scipy.signal import butter, sosfilt
    y = detrend(y)
    w = Trace(np.ones(len(y))).taper(0.05, type="cosine").data
    ny = 0.5 * sr
    z, p, k = butter(corners, np.array(freqs) / ny, kind, output="zpk")
    y = sosfilt(butter(corners, np.array(freqs) / ny, kind, output="sos"), y * w)
    gain = []
    for N in range(1, 121):
        e = np.exp(1j * np.pi / N)
        gain.append(abs(k * np.prod(e - z) / np.prod(e - p)))
    return y, gain


def run(job, wd):
    import numpy as np
    import pandas as pd
    from obspy import Stream, Trace, UTCDateTime
    from pyproj import Geod, Transformer

    import quakemigrate.util as util
    from checks._world import World
    from checks.q24 import nearest
    from quakemigrate.io import write_amplitudes
    from quakemigrate.io.core import Run
    from quakemigrate.io.data import WaveformData
    from quakemigrate.io.event import Event
    from quakemigrate.lut import compute_traveltimes
    from quakemigrate.signal.local_mag.amplitude import Amplitude
    r = random.Random(job["seed"])
    rng = np.random.default_rng(job["seed"])
    cases = []

    class Data(WaveformData):
        """Wood-Anderson waveforms are the raw ones in units of a metre over `unit`."""
        bad, unit = (), 1000.0

        def get_wa_waveform(self, tr, velocity=False):
            if tr.id in self.bad:
                raise util.ResponseNotFoundError("none", tr.id)
            tr = tr.copy()
            tr.data = tr.data / self.unit
            return tr

    for rep in range(job["n"]):
        tags, ev = set(), []
        sr = r.choice([20, 25, 40])
        dt = 10 ** 6 // sr
        n = (3, 3, 2)
        units = r.choice(["km", "m"])
        tags.add(units)
        f = 1.0 if units == "km" else 1000.0
        names = r.sample(["S1", "S10", "AA", "B", "S2"], r.randint(1, 4))
        vs = r.choice([2.2, 3.0, 4.0])
        w = World(names, n=n, spacing=r.choice([0.5, 1.0, 3.0]), vp=5.0, vs=vs, units=units,
                  phases=("P", "S"), sr=sr)
        lut = w.lut
        if r.random() < 0.4:
            tags.add("odd-index")
            st2 = w.st.copy()
            st2.index = r.choice([range(3, 3 + len(names)), r.sample(range(len(names)), len(names)),
                                  range(1, 1 + len(names)), [f"i{k}" for k in range(len(names))]])
            lut = compute_traveltimes(w.spec, st2, method="homogeneous", phases=["P", "S"],
                                      vp=5.0 * f, vs=vs * f)
        lut.fraction_tt = frac = r.choice([0.0, 0.05, 0.1, 0.3])
        mw = r.choice([0.2, 0.5, 1.0])
        sig = r.choice([0.0, 0.0, 0.3, 1.0])
        if sig:
            tags.add("signal-window")
        noise = r.choice([0.5, 1.0, 2.0])
        how = r.choice(["RMS", "STD", "ENV"])
        tags.add(how)
        par = dict(signal_window=sig, noise_window=noise, noise_measure=how)
        loc = r.choice(["spline", "spline", "gaussian", "covariance"])
        if loc != "spline" or r.random() < 0.5:
            par["loc_method"] = loc
        tags.add(loc)
        kind = r.choice(["none", "none", "highpass", "bandpass", "bandpass-nyquist"])
        tags.add("unfiltered" if kind == "none" else kind)
        corners = r.choice([2, 4])
        ftype, freqs = None, None
        if kind == "highpass":
            ftype, freqs = "highpass", r.choice([1.0, 2.0])
            par.update(highpass_filter=True, highpass_freq=freqs)
        elif kind == "bandpass":
            ftype, freqs = "bandpass", [r.choice([1.0, 2.0]), r.choice([0.3, 0.4, 0.47]) * sr]
            par.update(bandpass_filter=True, bandpass_lowcut=freqs[0], bandpass_highcut=freqs[1])
        elif kind == "bandpass-nyquist":
            ftype, freqs = "highpass", r.choice([1.0, 2.0])
            par.update(bandpass_filter=True, bandpass_lowcut=freqs,
                       bandpass_highcut=r.choice([0.5, 0.6]) * sr)
        if ftype and (corners != 4 or r.random() < 0.5):
            par["filter_corners"] = corners
        elif ftype:
            corners = 4
        ijk = [min(m - 1, max(0, r.randrange(m) + r.choice([0, 0, r.uniform(-0.45, 0.45)])))
               for m in n]
        tr_ = Transformer.from_proj(w.spec["grid_proj"], w.spec["coord_proj"])
        fw = Transformer.from_proj(w.spec["coord_proj"], w.spec["grid_proj"])
        xyz = np.array(fw.transform(*w.spec["ll_corner"])) + np.array(ijk) * w.spec["node_spacing"]
        event = Event(mw)
        event.uid = f"ev{rep}"
        lon, lat, z = tr_.transform(*xyz)
        other = np.array([lon + 0.01, lat - 0.02, z + 0.7 * f])
        event.add_spline_location([lon, lat, z] if loc == "spline" else other)
        event.add_gaussian_location(np.array([lon, lat, z]) if loc == "gaussian" else other,
                                    np.ones(3))
        event.add_covariance_location(np.array([lon, lat, z]) if loc == "covariance" else other,
                                      np.ones(3))
        if (2 * (mw + frac * max(float(np.max(v)) for v in w.tt.values())) + sig) * sr > 86:
            continue
        event.otime = drv.DAY0 + r.randrange(86400 * 10 ** 3) / 1e3
        t0 = event.otime._ns
        us = lambda t: int(round((t._ns - t0) / 1000))  # noqa: E731
        U = lambda x: int(round(x * 1e6))               # noqa: E731
        ttmax = max(float(np.max(v)) for v in w.tt.values())
        pre, post = noise + mw, sig + ttmax * (1 + frac) + mw
        more = np.ceil((pre + post) * 0.06)
        if abs((pre + post) * 0.06 - round((pre + post) * 0.06)) < 1e-4:
            continue
        pre, post = pre + more, post + more
        # what a station has of picks
        rows, per = [], {}
        for s in names:
            tp, ts = (nearest(w.tt[f"{s}_{p}"], n, ijk) for p in "PS")
            hp, hs = mw + tp * frac, mw + ts * frac
            for _ in range(50):
                what = r.choice(["no-rows", "both", "both", "both", "P", "S", "nopick", "P-only",
                                 "S-only", "swap"])
                pk = {"P": ("none",), "S": ("none",)}
                if what != "no-rows":
                    for p, m, h in (("P", tp, hp), ("S", ts, hs)):
                        if what == {"P": "S-only", "S": "P-only"}[p]:
                            continue
                        real = what in ("both", "swap", p) or (
                            what in ("P-only", "S-only") and r.random() < 0.6)
                        t = round(m + r.uniform(-1, 1) * h, 4)
                        pk[p] = ("pick", U(t)) if real else ("no-pick",)
                    if what == "swap":
                        pk = {"P": ("pick", U(round(ts + 0.1, 3))),
                              "S": ("pick", U(round(tp, 3)))}
                has = what != "no-rows"
                arr = [U(tp), U(ts)]
                if has and "none" not in (pk["P"][0], pk["S"][0]):
                    arr = [pk[p][1] if pk[p][0] == "pick" else a for p, a in zip("PS", arr)]
                if what != "swap" and abs(arr[1] - arr[0]) < 2000:
                    continue
                lo, hi = U(-hp) + arr[0], arr[0] + U(hp)
                s0 = arr[1] - U(hs)
                mid = (hi + s0) // 2
                if arr[0] < arr[1] and s0 < hi and mid < lo + 4 * dt:
                    continue
                # which case it is must not hang on rounding
                if abs(s0 - hi) < 2000 or abs(s0 - hi - U(sig)) < 2000 and sig:
                    continue
                break
            else:
                pk, has, arr = {"P": ("none",), "S": ("none",)}, False, [U(tp), U(ts)]
                what = "no-rows"
            if not has:
                tags.add("no-rows")
            elif arr[0] >= arr[1]:
                tags.add("out-of-order")
            elif "none" in (pk["P"][0], pk["S"][0]):
                tags.add("phase-missing")
            else:
                tags.add({(1, 1): "pick-both", (1, 0): "pick-P", (0, 1): "pick-S", (0, 0): "no-pick"}[
                    int(pk["P"][0] == "pick"), int(pk["S"][0] == "pick")])
            hi, s0 = arr[0] + U(hp), arr[1] - U(hs)
            tags.add("overlap" if s0 < hi else "touch" if s0 - hi < U(sig) else "apart")
            for p in r.sample("PS", 2):
                if pk[p][0] != "none":
                    t = UTCDateTime(ns=t0 + pk[p][1] * 1000) if pk[p][0] == "pick" else -1
                    m = event.otime + (tp if p == "P" else ts)
                    rows.append([s, p, m, t, 0.1 if t != -1 else -1, 3.0 if t != -1 else -1,
                                 0.0 if t != -1 else -1])
            per[s] = dict(tp=tp, ts=ts, hp=hp, hs=hs, pk=pk, has=has, arr=arr)
        picks = pd.DataFrame(rows, columns=["Station", "Phase", "ModelledTime", "PickTime",
                                            "PickError", "SNR", "Residual"])
        event.add_picks(picks)
        data = Data(event.otime - 1, event.otime + 1)
        bad, stream, comp = set(), Stream(), {}
        codes = r.choice([("E", "N", "Z"), ("2", "1", "Z")])
        for s in names:
            for ci, c in enumerate(codes):
                what = r.choice(["complete"] * 6 + ["missing", "gap", "gap-outside", "duplicate", "late",
                                                    "early", "no-response"])
                tags.add(what)
                off = r.randrange(dt)
                a = -U(pre) - r.choice([1, 2, 3, 30]) * dt - off
                b = U(post) + r.choice([1, 2, 3, 30]) * dt
                if what == "late":
                    a = -U(pre) + r.choice([3, 10, 100]) * dt + off
                if what == "early":
                    b = U(post) - r.choice([3, 10, 100]) * dt
                m = max(8, (b - a) // dt + 1)
                shape = r.choice(["random"] * 6 + ["dead", "ramp", "slow"])
                y = rng.integers(-40, 41, m)
                for k in range(1, m):          # no equal neighbours
                    if abs(y[k] - y[k - 1]) < 6:
                        y[k] = y[k - 1] + (9 if y[k - 1] < 20 else -9)
                if shape == "slow":
                    ph = np.cumsum(rng.uniform(0.15, 0.6, m))
                    y = np.rint(300 * np.sin(ph)).astype(int)
                    y[1:][np.diff(y) == 0] += 1
                elif shape == "ramp":
                    y = y + 2 * np.arange(m) // 3
                    y = y - int(y.mean())
                    tags.add("ramp")
                if np.abs(y).max() > 390:
                    y = np.clip(y, -390, 390)
                if shape == "dead" and ftype is None:
                    k = r.randrange(m)
                    y[k:k + r.randrange(m)] = 0
                    tags.add("dead")
                head = dict(network="VQ", station=s, channel="HH" + c, sampling_rate=sr,
                            starttime=UTCDateTime(ns=t0 + a * 1000))
                whole = Trace(y.astype(r.choice([np.int32, np.float64])), header=head)
                here = []
                if what == "missing":
                    pass
                elif what == "gap":
                    k = r.randrange(m // 4, m // 2)
                    here = [whole.slice(endtime=whole.stats.starttime + k / sr),
                            whole.slice(starttime=whole.stats.starttime + (k + 3) / sr)]
                elif what == "gap-outside":
                    far = whole.copy()
                    if r.random() < 0.5:
                        far.stats.starttime -= m / sr + r.choice([0.5, 3.0])
                    else:
                        far.stats.starttime += m / sr + r.choice([0.5, 3.0])
                    here = [whole, far]
                    r.shuffle(here)
                elif what == "duplicate":
                    two = whole.copy()
                    if c == "Z":
                        two.stats.channel = "BHZ"
                    else:
                        two.stats.channel = "HH" + {"E": "2", "N": "1", "2": "E", "1": "N"}[c]
                    here = [whole, two]
                else:
                    here = [whole]
                if what == "no-response":
                    bad.add(whole.id)
                for t in here:
                    stream.append(t)
                comp[s, ci] = (what, [t.copy() for t in here], whole)
        data.bad = bad
        if r.random() < 0.3:
            stream.traces.reverse()
        data.raw_waveforms = stream
        event.data = data
        before = [(t.id, t.stats.starttime, t.stats.npts, t.data.copy()) for t in stream]
        kept = picks.copy()
        amps = Amplitude(dict(par)).get_amplitudes(event, lut)
        pure = len(before) == len(data.raw_waveforms) and all(
            x[0] == t.id and x[1] == t.stats.starttime and x[2] == t.stats.npts
            and (x[3] == t.data).all() for x, t in zip(before, data.raw_waveforms)) and \
            kept.astype(str).equals(event.picks["df"].astype(str))
        geod = Geod(ellps="WGS84")
        want = []
        for s in names:
            d = per[s]
            row = w.st[w.st["Name"] == s].iloc[0]
            dist = geod.inv(lon, lat, row["Longitude"], row["Latitude"])[2]
            for ci, pat in enumerate(["[E,2]", "[N,1]", "Z"]):
                what, here, whole = comp[s, ci]
                blank_id = f".{s}..{pat}"
                sel = [t for t in here if us(t.stats.endtime) >= -U(pre) - dt
                       and us(t.stats.starttime) <= U(post) + dt]
                good = len(sel) == 1 and us(sel[0].stats.starttime) < -U(pre) + dt \
                    and us(sel[0].stats.endtime) > U(post) - dt
                wid = sel[0].id if good else blank_id
                want.append(wid)
                i = len(want) - 1
                if i >= len(amps):
                    continue
                q = amps.iloc[i]
                y, yo, gain, unit, tol = [], 0, [], 1.0, 4
                got, ref, nz, none = [[], []], [[], [], []], [], 0
                if good:
                    t = sel[0]
                    ta = us(t.stats.starttime)
                    cut = Stream([x.copy() for x in data.raw_waveforms if x.stats.station == s])
                    cut.trim(event.otime - pre, event.otime + post)
                    cut = [x for x in cut if x.id == t.id][0]
                    ka = round((us(cut.stats.starttime) - ta) / dt)
                    kb = ka + cut.stats.npts - 1
                    yf = np.asarray(t.data[ka:kb + 1], float)
                    yo = ka
                    if ftype:
                        yf, gain = filtered(yf, ftype, freqs, corners, sr)
                        unit = 380 / max(1e-9, np.abs(yf).max())
                        tol = 1500
                    yf = yf * unit
                    y = np.rint(yf).astype(int).tolist()
                    hp, hs = U(d["hp"]), U(d["hs"])
                    arr = d["arr"]
                    p0, p1, s0, s1 = arr[0] - hp, arr[0] + hp, arr[1] - hs, arr[1] + hs + U(sig)
                    mid = (p1 + s0) // 2
                    W = [[p0, mid], [mid, s1]] if s0 < p1 else [[p0, min(p1 + U(sig), s0)], [s0, s1]]
                    W.append([p0 - U(noise), p0])
                    for j, (wa, wb) in enumerate(W):
                        xa, xb = round((wa - ta) / dt) - ka, round((wb - ta) / dt) - ka
                        for a in {max(0, xa + e) for e in (-1, 0, 1)}:
                            for b in {min(len(y) - 1, xb + e) for e in (-1, 0, 1)}:
                                if b > a:
                                    ref[j].append([a + ka, b + ka, int(round(
                                        average(yf[a:b + 1], how) * 1000))])
                # milli-units of y, from millimetres of Wood-Anderson displacement
                # (the stub turns counts into metres over 1000: millimetres are counts)
                mu = unit * 1000
                for j, p in enumerate("PS"):
                    f4 = [q[f"{p}_{x}"] for x in ("amp", "freq", "time", "avg_amp")]
                    miss = sum(1 for x in f4 if x is None or x is pd.NaT or (
                        not isinstance(x, UTCDateTime) and not np.isfinite(float(x))))
                    g5 = q[f"{p}_filter_gain"]
                    has5 = g5 is not None and np.isfinite(float(g5))
                    if miss == 4:
                        none += has5
                        continue
                    if miss or bool(ftype) != has5:
                        none += 1
                        continue
                    g5 = float(g5) if has5 else 1.0
                    clip = lambda x: int(max(-10 ** 9, min(10 ** 9, round(x))))  # noqa: E731
                    tt = f4[2] if isinstance(f4[2], UTCDateTime) else UTCDateTime(str(f4[2]))
                    got[j] = [clip(float(f4[0]) * g5 * mu),
                              clip(sr / (2 * float(f4[1])) * 1000) if f4[1] > 0 else 0,
                              clip(us(tt)), clip(float(f4[3]) * g5 * mu),
                              clip(g5 * 1e5) if has5 else 0]
                    tags.add("measured")
                na = q["Noise_amp"]
                if na is not None and np.isfinite(float(na)):
                    nz = [int(round(float(na) * mu))]
                ev.append(dict(
                    e="row", pre=U(pre), post=U(post), resp=not (good and wid in bad), rows=d["has"],
                    p=list(d["pk"]["P"]), s=list(d["pk"]["S"]), modp=U(d["tp"]), mods=U(d["ts"]),
                    hp=U(d["hp"]), hs=U(d["hs"]), sig=U(sig), noise=U(noise),
                    trs=[[us(t.stats.starttime), t.stats.npts] for t in here], dt=dt, y=y, yo=yo,
                    tol=tol, gain=[int(round(g * 1e5)) for g in gain], got=got, nz=nz, none=none,
                    ref=ref, pk=bool(q["is_picked"]), id=str(amps.index[i]), wantid=wid,
                    ed=int(round(float(q["epi_dist"]) * 1000)), wanted=int(round(dist)),
                    zd=int(round(float(q["z_dist"]) * 1000)),
                    wantzd=int(round((z - row["Elevation"]) / f * 1000))))
        # the file
        run_ = Run(wd, f"run{rep}", "", stage="locate")
        write_amplitudes(run_, amps, event)
        p = os.path.join(wd, f"run{rep}", "locate", "amplitudes", f"{event.uid}.amps")
        head, lines = drv.rows_of(p) if os.path.exists(p) else ([], [])
        tags.add("file")
        badf = 0 if head == ["id"] + list(amps.columns) and len(lines) == len(amps) else 1
        for a, (k, b) in zip(lines, amps.iterrows()):
            try:
                badf += a["id"] != k
                badf += a["is_picked"] != str(bool(b["is_picked"]))
                for col in amps.columns[:-1]:
                    nan = b[col] is None or (not isinstance(b[col], UTCDateTime)
                                             and not np.isfinite(float(b[col])))
                    if nan:
                        badf += a[col] != ""
                    elif "time" in col:
                        badf += UTCDateTime(a[col]) != b[col]
                    else:
                        tolf = 0.05 if "freq" in col else 6e-3 if "gain" in col else 6e-5
                        badf += not abs(float(a[col]) - b[col]) <= tolf * abs(b[col])
            except Exception:
                badf += 1
        ev.append(dict(e="table", want=want, got=[str(x) for x in amps.index], file=int(badf),
                       pure=bool(pure)))
        if job["phys"] and "odd-index" not in tags and not any("phys" in x for c in cases for x in c["note"]["tags"]):
            phys(r, rng, w, lut, event, per, names, ev, tags, loc)
        cases.append(dict(key=f"amps-{rep}", ev=ev, note=dict(tags=sorted(tags))))
    return cases


def phys(r, rng, w, lut, event, per, names, ev, tags, loc):
    """A sinusoidal ground displacement, seen through an instrument."""
    import numpy as np
    from obspy import Stream, Trace
    from obspy.core.inventory import Channel, Inventory, Network, Station
    from obspy.core.inventory.response import Response

    from quakemigrate.io.data import WaveformData
    from quakemigrate.signal.local_mag.amplitude import Amplitude
    full = r.random() < 0.5
    tags.add("physical-full" if full else "physical")
    sr, f0 = 50.0, r.choice([2.0, 3.0, 5.0])
    om = 2 * np.pi * f0
    poles = [-4.44 + 4.44j, -4.44 - 4.44j]
    gain = r.choice([5e8, 1.2e9])
    resp = Response.from_paz(zeros=[0j, 0j], poles=poles, stage_gain=gain, stage_gain_frequency=10.0,
                             input_units="M/S", output_units="COUNTS", normalization_frequency=10.0)
    s10 = 2j * np.pi * 10
    h = lambda s: s * s / ((s - poles[0]) * (s - poles[1]))  # noqa: E731
    H = abs(h(1j * om)) / abs(h(s10)) * gain
    A = 10 ** r.uniform(-7, -5)
    pw = [-6.283185 - 4.712j, -6.283185 + 4.712j]
    W = 2080 * om ** 2 / abs((1j * om - pw[0]) * (1j * om - pw[1]))
    exp = A * W * 1000          # millimetres on the Wood-Anderson record
    st, stations = Stream(), []
    start = event.otime - 40
    t = np.arange(int(100 * sr)) / sr
    for s in names:
        chans = []
        for c in "ENZ":
            st.append(Trace(H * om * A * np.cos(om * t + r.uniform(0, 6)), header=dict(
                network="VQ", station=s, channel="HH" + c, sampling_rate=sr, starttime=start)))
            chans.append(Channel("HH" + c, "", 0, 0, 0, 0, response=resp))
        stations.append(Station(s, 0, 0, 0, channels=chans))
    inv = Inventory([Network("VQ", stations)])
    data = WaveformData(event.otime - 1, event.otime + 1, response_inv=inv, water_level=60.0,
                        pre_filt=None, remove_full_response=full)
    data.raw_waveforms = st
    event.data = data
    event.marginal_window = 1.0
    amps = Amplitude(dict(signal_window=1.0, noise_window=2.0,
                          loc_method=loc)).get_amplitudes(event, lut)
    scale = 10 ** 5 / exp
    for s in names:
        if per[s]["arr"][0] < per[s]["arr"][1]:
            for _, q in amps[[f".{s}." in x for x in amps.index]].iterrows():
                got = float(q["S_amp"]) * scale
                ev.append(dict(e="phys", exp=10 ** 5,
                               got=int(round(min(got, 1e9))) if np.isfinite(got) else -1))
