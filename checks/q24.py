"""Q24: Every autopick lies in its own window and is reported consistently."""
import os
import random

from vlib import drv

TRACE = "PickTrace"
DESIGN = {"quick": [("PickMC", "PickMC.cfg")], "thorough": [("PickMC", "PickMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("GaussianPicker.pick_phases on random events: 1 to 5 stations, P and S in either order, "
        "S only or P only, stations with one or no onset, hypocentres on and between nodes, "
        "traveltimes that bring the P and S windows together, fractions of traveltime from the "
        "table or the picker, both threshold methods; onsets flat, noisy, without values above "
        "one, with a Gaussian at, near, across and outside its window, just above and just below "
        "the threshold, at the first or the last samples, plateaus, single-sample spikes and two "
        "peaks; every window, threshold and pick judged by Pick.tla.")
TAGS = ["MAD", "percentile", "phases-PS", "phases-SP", "phases-P", "phases-S", "windows-meet",
        "clipped", "flat", "no-noise", "peak", "weak", "spike", "two-peaks", "plateau", "at-start",
        "at-end", "crosses-end", "missing-onset", "no-rows", "picked", "not-picked", "seed-ids",
        "picker-fraction", "several-events"]
ASSUMPTIONS = ["the data start at least a marginal window before the origin time",
               "the modelled arrivals are inside the data"]


def jobs(tier, seed, gens):
    r = random.Random(seed * 7368787 + 24)
    return [dict(seed=r.randrange(1 << 30), n=12) for _ in range(24 if tier == "quick" else 300)]


def nearest(tt, n, ijk):
    """The traveltime of the node nearest to a place in the grid."""
    import numpy as np
    return float(np.asarray(tt).reshape(n)[tuple(int(round(x)) for x in ijk)])


def threshold(noise, method, arg):
    import numpy as np
    if not len(noise):
        return 5.0
    if method == "percentile":
        return float(np.percentile(noise, arg * 100))
    med = np.median(noise)
    return float(med + arg * 1.4826 * np.median(np.abs(noise - med)))


def run(job, wd):
    import numpy as np
    from obspy import Stream, Trace, UTCDateTime
    from pyproj import Transformer

    from checks._world import World, onset_class
    from quakemigrate.io.core import Run
    from quakemigrate.io.event import Event
    from quakemigrate.signal.onsets.base import OnsetData
    from quakemigrate.signal.pickers import GaussianPicker
    r = random.Random(job["seed"])
    rng = np.random.default_rng(job["seed"])
    cases = []

    class Given(onset_class()):
        given = None

        def calculate_onsets(self, data, log=True, timespan=None):
            return None, self.given

    for rep in range(job["n"]):
        tags, ev = set(), []
        sr = r.choice([10, 20, 25, 50])
        phases = r.choice([["P", "S"], ["P", "S"], ["S", "P"], ["P"], ["S"]])
        tags.add("phases-" + "".join(phases))
        names = [f"S{k}" for k in range(r.randint(1, 5))]
        n = (3, 3, 2)
        w = World(names, n=n, spacing=r.choice([1.0, 2.0, 5.0]), vp=5.0, vs=r.choice([2.6, 3.0, 4.5]),
                  units=r.choice(["km", "m"]), phases=("P", "S"), sr=sr)
        frac = r.choice([0.0, 0.05, 0.1, 0.3, 1.2])
        how = r.choice(["table", "picker"])
        kw = {}
        if how == "picker":
            kw["fraction_tt"] = frac
            w.lut.fraction_tt = 0.17
            tags.add("picker-fraction")
        else:
            w.lut.fraction_tt = frac
        method = r.choice(["MAD", "MAD", "percentile"])
        tags.add(method)
        arg = r.choice([8.0, 3.0, 1.5]) if method == "MAD" else r.choice([1.0, 0.9, 0.5, 0.975])
        kw["mad_pick_threshold" if method == "MAD" else "percentile_pick_threshold"] = arg
        seeds = r.random() < 0.25
        if seeds:
            kw["write_seed_ids"] = True
            tags.add("seed-ids")
        ons = Given(w, None, None, [])
        ons.phases = phases
        ons.channel_maps = {"P": "*Z", "S": "*[N,E,1,2]"}
        picker = GaussianPicker(onset=ons, threshold_method=method, plot_picks=False, **kw)
        sub = r.choice(["", "s"])
        rundir = Run(wd, f"run{rep}", sub, stage="locate")
        n_ev = r.choice([1, 1, 2])
        if n_ev > 1:
            tags.add("several-events")
        for ie in range(n_ev):
            mw = r.choice([0.3, 0.5, 1.0, 2.0])
            ijk = [min(m - 1, r.randrange(m) + r.choice([0, 0, r.uniform(-0.45, 0.45)])) for m in n]
            ijk = [max(0, x) for x in ijk]
            tr = Transformer.from_proj(w.spec["grid_proj"], w.spec["coord_proj"])
            fw = Transformer.from_proj(w.spec["coord_proj"], w.spec["grid_proj"])
            xyz = np.array(fw.transform(*w.spec["ll_corner"])) + np.array(ijk) * w.spec["node_spacing"]
            event = Event(mw)
            event.uid = f"{rep}{ie}"
            event.trigger_info = {}
            event.add_spline_location(tr.transform(*xyz))
            start = drv.DAY0 + r.randrange(86400 * 10 ** 6) / 1e6 // (1 / sr) / sr
            lead = mw + r.choice([0.0, 0.02, r.uniform(0, mw)])
            event.otime = UTCDateTime(ns=start._ns + int(round(lead * 1e6)) * 1000)
            lead = (event.otime._ns - start._ns) / 1e9
            tts = {(s, p): nearest(w.tt[f"{s}_{p}"], n, ijk) for s in names for p in phases}
            N = int((lead + max(tts.values())) * sr) + 2 + r.choice(
                [0, 1, int(mw * sr), int(2 * mw * sr), int(6 * mw * sr)])
            N = min(max(N, 8), 700)
            fracs = frac
            onsets, stream, plants = {}, Stream(), {}
            present = {}
            for s in names:
                have = [p for p in phases if r.random() < 0.85]
                if len(have) < len(phases):
                    tags.add("missing-onset")
                if have:
                    present[s] = have
            for s, have in present.items():
                arr = {p: int(round((lead + tts[s, p]) * sr)) for p in have}
                half = {p: int(round((tts[s, p] * fracs + mw) * sr)) for p in have}
                q = sorted(have, key=lambda p: arr[p])
                win = {p: [arr[p] - half[p], arr[p] + half[p]] for p in have}
                for a, b in zip(q, q[1:]):
                    if win[a][1] > win[b][0]:
                        tags.add("windows-meet")
                    m = (arr[a] + arr[b]) // 2
                    win[a][1], win[b][0] = min(win[a][1], m), max(win[b][0], m)
                if win[q[0]][0] < 0 or win[q[-1]][1] > N:
                    tags.add("clipped")
                win[q[0]][0], win[q[-1]][1] = max(0, win[q[0]][0]), min(N, win[q[-1]][1])
                outside = np.ones(N, bool)
                for a, b in win.values():
                    outside[a:b] = False
                for p in have:
                    kind = r.choice(["flat", "noise", "noise", "noise", "noise", "noise", "below", "one",
                                     "few"])
                    if kind == "flat":
                        x = np.full(N, r.choice([0.5, 1.0, 1.2]))
                        tags.add("flat")
                    elif kind == "below":
                        x = rng.uniform(0.2, 0.95, N)
                    elif kind == "one":
                        x = np.ones(N)
                    elif kind == "few":
                        x = rng.uniform(0.2, 0.95, N)
                        x[rng.integers(0, N, 3)] = rng.uniform(1.05, 3, 3)
                    else:
                        x = rng.gamma(2, 0.5, N) + 0.2
                    x = np.round(x, 3)
                    noise = x[outside & (x > 1)]
                    if not len(noise):
                        tags.add("no-noise")
                    T = threshold(noise, method, arg)
                    a, b = win[p]
                    k = np.arange(N)
                    what = r.choice(["none", "peak", "peak", "peak", "near", "weak", "spike", "two",
                                     "plateau", "start", "end", "cross", "outside"])
                    plant = []
                    sg = r.uniform(1.5, 5)

                    def bump(c, h, sg=sg):
                        return h * np.exp(-(k - c) ** 2 / (2 * sg ** 2))
                    if what == "peak" and b - a > 12:
                        c = r.uniform(a + 5, b - 6)
                        sg = min(sg, (min(c - a, b - c) - 1) / 3.2)
                        h = T * r.choice([1.15, 1.5, 3]) + 0.3
                        if sg >= 1.3:
                            x[a:b] = np.minimum(x[a:b], 0.3 * T)
                            x[a:b] = np.maximum(x, bump(c, h, sg))[a:b]
                            # alone: what rises above the threshold is the Gaussian itself
                            up = np.flatnonzero(x[a:b] > T)
                            if len(up) >= 4:
                                plant = [int(round(c * 1e4)), int(round(sg / sr * 1e6)),
                                         int(round(h * 1000))]
                                tags.add("peak")
                    elif what == "near" and b - a > 3:
                        x = np.maximum(x, bump(r.uniform(a, b), 2 * T))
                    elif what == "weak":
                        x[a:b] = np.minimum(x[a:b], 0.97 * T)
                        x[a:b] = np.maximum(x, bump(r.uniform(a, b), 0.97 * T))[a:b]
                        tags.add("weak")
                    elif what == "spike" and b > a:
                        x[a:b] = np.minimum(x[a:b], 0.5 * T)
                        x[r.randrange(a, b)] = T * 2
                        tags.add("spike")
                    elif what == "two" and b - a > 20:
                        sg = min(sg, (b - a) / 16)
                        cs = [r.uniform(a + 4 * sg, a + 5 * sg), r.uniform(b - 5 * sg, b - 4 * sg)]
                        r.shuffle(cs)
                        x[a:b] = np.minimum(x[a:b], 0.3 * T)
                        x[a:b] = np.maximum(x, np.maximum(
                            bump(cs[0], 3 * T, sg), bump(cs[1], 2 * T, sg)))[a:b]
                        if sg >= 1.5:
                            plant = [int(round(cs[0] * 1e4)), int(round(sg / sr * 1e6)),
                                     int(round(3 * T * 1000))]
                        tags.add("two-peaks")
                    elif what == "plateau" and b > a:
                        x[r.randrange(a, b):b] = 2 * T
                        tags.add("plateau")
                    elif what == "start":
                        x = np.maximum(x, bump(r.choice([a, 0]), 2 * T))
                        tags.add("at-start")
                    elif what == "end":
                        x = np.maximum(x, bump(r.choice([N - 1, b - 1, N]), 2 * T))
                        tags.add("at-end")
                    elif what == "cross":
                        x = np.maximum(x, bump(r.choice([a, b]) + r.choice([-2, 0, 1, 3]), 3 * T))
                        tags.add("crosses-end")
                    elif what == "outside":
                        x = np.maximum(x, bump(r.choice([a - 10, b + 10]), 3 * T))
                    x = np.minimum(np.round(x, 3), 20.0)
                    if plant and plant[2] > 19000:
                        plant = []
                    onsets.setdefault(s, {})[p] = x
                    plants[s, p] = plant
                chans = [c for c in ("HHZ", "HHN", "HHE") if r.random() < 0.9]
                for c in chans:
                    stream.append(Trace(np.zeros(4), header=dict(network="VQ", station=s, channel=c)))
            if not onsets:
                tags.add("no-rows")
            given = OnsetData(onsets=onsets, phases=phases, channel_maps=ons.channel_maps,
                              filtered_waveforms=stream, availability={}, starttime=start,
                              endtime=start + (N - 1) / sr, sampling_rate=sr)
            ons.given = given
            before = {(s, p): x.copy() for s, d in onsets.items() for p, x in d.items()}
            event, table = picker.pick_phases(event, w.lut, rundir)
            pure = all((onsets[s][p] == x).all() for (s, p), x in before.items())
            table = event.picks["df"]
            pw = event.picks["pick_windows"]
            us = lambda t: int(round((t._ns - start._ns) / 1000))  # noqa: E731
            for s in onsets:
                ph = []
                for p in onsets[s]:
                    q = table[(table["Station"] == s) & (table["Phase"] == p)]
                    if len(q) != 1:
                        continue
                    q = q.iloc[0]
                    f = [q["PickTime"], q["PickError"], q["SNR"], q["Residual"]]
                    none = sum(1 for x in f if not isinstance(x, UTCDateTime) and x == -1)
                    pick = none < 4
                    got = isinstance(f[0], UTCDateTime) and none == 0 and all(
                        np.isfinite(float(x)) for x in f[1:])
                    a = lead + tts[s, p]
                    big = lambda x, u: int(max(-2e9, min(2e9, round(float(x) * u))))  # noqa: E731
                    ph.append(dict(
                        on=np.rint(onsets[s][p] * 1000).astype(int).tolist(),
                        arr4=int(round(a * sr * 1e4)),
                        half4=int(round((tts[s, p] * fracs + mw) * sr * 1e4)),
                        win=[int(x) for x in pw[s][p]],
                        model=us(q["ModelledTime"]), wantm=int(round(a * 1e6)),
                        pick=bool(pick), none=none if (got or not pick) else 1,
                        t4=int(round((f[0]._ns - start._ns) / 1e9 * sr * 1e4)) if got else 0,
                        t=us(f[0]) if got else 0, err=big(f[1], 1e6) if got else 0,
                        snr=big(f[2], 1000) if got else 0, res=big(f[3], 1e6) if got else 0,
                        plant=plants[s, p]))
                    tags.add("picked" if pick else "not-picked")
                ev.append(dict(e="station", n=N, method=method, mult=int(round(arg * 10)),
                               perm=int(round(arg * 1000)), ph=ph))
            want = [f"{s} {p}" for s in onsets for p in onsets[s]]
            got = [f"{a} {b}" for a, b in zip(table["Station"], table["Phase"])]
            # the file
            p = os.path.join(wd, f"run{rep}", "locate", sub, "picks", f"{event.uid}.picks")
            head, rows = drv.rows_of(p) if os.path.exists(p) else ([], [])
            cols = ["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR", "Residual"]
            if seeds:
                cols.insert(1, "SEED_ids")
            bad = 0 if head == cols and len(rows) == len(table) else 1
            for a, (_, b) in zip(rows, table.iterrows()):
                try:
                    for col in ("ModelledTime", "PickTime"):
                        if isinstance(b[col], UTCDateTime):
                            bad += UTCDateTime(a[col]) != b[col]
                        else:
                            bad += float(a[col]) != b[col]
                    for col, tol in (("PickError", 6e-3), ("SNR", 6e-3), ("Residual", 1e-6)):
                        bad += not abs(float(a[col]) - float(b[col])) <= tol * abs(float(b[col])) + 1e-9
                    bad += a["Station"] != b["Station"] or a["Phase"] != b["Phase"]
                    if seeds:
                        ids = sorted({t.id for t in stream if t.stats.station == b["Station"]
                                      and (t.stats.channel[-1] == "Z") == (b["Phase"] == "P")})
                        bad += a["SEED_ids"] != str(ids)
                except Exception:
                    bad += 1
            ev.append(dict(e="table", want=sorted(want), got=sorted(got), file=int(bad), pure=pure))
        cases.append(dict(key=f"picks-{rep}", ev=ev, note=dict(tags=sorted(tags))))
    return cases
