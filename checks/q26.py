"""Q26: Event magnitude is the mean of exactly the observations passing all filters."""
import os
import random
import re

from vlib import drv

TRACE = "MagnitudeTrace"
DESIGN = {"quick": [("MagnitudeMC", "MagnitudeMC.cfg")], "thorough": [("MagnitudeMC", "MagnitudeMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("random amplitude tables of 1 to 12 traces (missing, zero and sub-noise amplitudes, missing "
        "noise, zero distances, with and without filter gains), every attenuation function and a "
        "user function, station corrections, multiplier, epicentral and hypocentral distance; the "
        "same table is put through magnitudes and event magnitudes two to five times with changing "
        "filters (noise above, below and at one or off, trace expression, stations, distance with "
        "observations exactly at it, picks), mean and weighted mean, both r-squared sets, and once "
        "through LocalMag with its output file.")
TAGS = ["weighted", "hyp", "multiplier", "corrections", "gain", "no-gain", "missing", "zero-amp",
        "below-noise", "zero-dist", "noise-off", "noise-half", "trace", "stations", "dist",
        "dist-at", "pick", "none-used", "one-used", "many-used", "again", "r2-all", "r2-refused", "callable",
        "P_amp", "localmag", "numeric-station"]
ASSUMPTIONS = ["noise amplitudes are above zero where a weighted mean or an error is asked for",
               "an amplitude equals its noise amplitude only where it is not used"]
NIL = -99999999


def jobs(tier, seed, gens):
    r = random.Random(seed * 5750353 + 26)
    return [dict(seed=r.randrange(1 << 30), n=25) for _ in range(16 if tier == "quick" else 240)]


def log_a0(name, d):
    """-log A0 as published (Keir 2006; Illsley-Kemp 2017; Greenfield 2018; Hutton & Boore 1987;
    Langston 1998; Luckett 2018)."""
    import math
    if name == "UK":
        return 1.11 * math.log10(d) + 0.00189 * d - 1.16 * math.exp(-0.2 * d) - 2.09
    r, a, b, c = {"keir2006": (17, 1.196997, 0.001066, 2), "Danakil2017": (17, 1.274336, -0.000273, 2),
                  "Greenfield2018_askja": (17, 1.4406, 0.003, 2),
                  "Greenfield2018_bardarbunga": (17, 1.2534, 0.0032, 2),
                  "Greenfield2018_comb": (17, 1.1999, 0.0016, 2),
                  "Hutton-Boore": (100, 1.11, 0.00189, 3),
                  "Langston1998": (17, 0.776, 0.000902, 2)}[name]
    return a * math.log10(d / r) + b * (d - r) + c


CURVES = ["keir2006", "Danakil2017", "Greenfield2018_askja", "Greenfield2018_bardarbunga",
          "Greenfield2018_comb", "Hutton-Boore", "Langston1998", "UK"]


def th(x):
    import math
    x = float(x)
    return int(round(x * 1000)) if math.isfinite(x) else NIL


def same(a, b):
    """Tables equal, NaN equal to NaN."""
    import pandas as pd
    if list(a.columns) != list(b.columns) or list(a.index) != list(b.index):
        return False
    for col in a.columns:
        for x, y in zip(a[col], b[col]):
            if not (x == y or (pd.isna(x) and pd.isna(y))):
                return False
    return True


def run(job, wd):
    import math

    import numpy as np
    import pandas as pd
    from quakemigrate.io.core import Run
    from quakemigrate.io.event import Event
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.local_mag.magnitude import Magnitude
    r = random.Random(job["seed"])
    cases = []
    for rep in range(job["n"]):
        tags, ev = set(), []
        feat = r.choice(["S_amp", "S_amp", "P_amp"])
        if feat == "P_amp":
            tags.add(feat)
        other = "P" if feat[0] == "S" else "S"
        hyp = r.random() < 0.5
        if hyp:
            tags.add("hyp")
        mult = r.choice([1.0, 1.0, 2.0, 0.25, 1000.0])
        if mult != 1.0:
            tags.add("multiplier")
        curve = r.choice(CURVES + ["callable"])
        if curve == "callable":
            tags.add("callable")
            A0 = lambda d: 1.3 * np.log10(d) + 0.002 * d  # noqa: E731
            att_of = lambda d: 1.3 * math.log10(d) + 0.002 * d  # noqa: E731
        else:
            A0 = curve
            att_of = lambda d: log_a0(curve, d)  # noqa: E731
        locs = ["", "", "00", "10"]
        pool = ["AB", "B", "AAB", "ABC", "KVE", "10", "00"]
        stns = r.sample(pool, r.randint(1, 5))
        if {"10", "00"} & set(stns):
            tags.add("numeric-station")
        unit = 10.0 ** r.choice([-6, -4, -3, 0])
        gains = r.random() < 0.5
        tags.add("gain" if gains else "no-gain")
        clean = r.random() < 0.3
        rows, ids, obs = [], [], []
        corr = {}
        for s in stns:
            loc = r.choice(locs)
            ed, zd = r.choice([(300, 400), (r.randint(1, 9000), r.randint(0, 3000)),
                               (r.randint(1, 9000), r.randint(0, 3000)), (800, 600), (0, 500), (0, 0)]
                              if not clean else [(r.randint(1, 9000), r.randint(0, 3000))])
            pk = r.random() < 0.6
            for comp in ("HHE", "HHN", "HHZ")[:r.choice([3, 3, 1])]:
                t = f"VQ.{s}.{loc}.{comp}"
                noise = r.randint(20, 500)
                gain = r.choice([50, 80, 90, 100]) if gains else 100
                lv = noise * 100 / gain
                kind = r.choice(["good", "good", "good", "good", "low", "below", "zero", "noamp",
                                 "nonoise", "none"] if not clean else ["good", "good", "low"])
                if kind == "good":
                    amp = int(lv * r.uniform(2.2, 60)) + 1
                elif kind == "low":
                    amp = int(lv * r.uniform(1.05, 2.8)) + 1
                elif kind == "below":
                    amp = int(lv * r.uniform(0.3, 0.95))
                elif kind == "zero":
                    amp = 0
                else:
                    amp = int(lv * 5)
                if amp * gain == noise * 100:
                    amp += 1
                if kind in ("noamp", "none"):
                    amp = -1
                if kind in ("nonoise", "none"):
                    noise = -1
                if amp == -1 or noise == -1:
                    tags.add("missing")
                if kind == "below":
                    tags.add("below-noise")
                if amp == 0:
                    tags.add("zero-amp")
                d = math.hypot(ed, zd) if hyp else ed
                if d == 0:
                    tags.add("zero-dist")
                if r.random() < 0.4:
                    corr[t] = r.choice([-0.31, 0.12, 0.4])
                f = lambda x: np.nan if x == -1 else x * unit  # noqa: E731
                ids.append(t)
                rows.append({
                    "epi_dist": ed / 100, "z_dist": zd / 100,
                    f"{feat}": f(amp), f"{feat[0]}_freq": 3.1, f"{feat[0]}_time": 1.0,
                    f"{feat[0]}_avg_amp": 1e-3,
                    f"{feat[0]}_filter_gain": gain / 100 if gains and amp != -1 else np.nan,
                    f"{other}_amp": r.choice([np.nan, 0.123]), f"{other}_freq": 2.0,
                    f"{other}_time": 2.0, f"{other}_avg_amp": 2e-3,
                    f"{other}_filter_gain": 0.123 if gains else np.nan,
                    "Noise_amp": f(noise), "is_picked": pk})
                lg = lambda x: th(math.log10(x * unit * mult)) if x > 0 else NIL  # noqa: E731
                nz = noise * 100 / gain
                er = lambda a, b: max(1, int(round(1e5 * math.log10((a + b) / (a - b))))) \
                    if a > b > 0 else NIL  # noqa: E731
                obs.append(dict(amp=amp, noise=noise, gain=gain, ed=ed, zd=zd, st=s, tr=False, pk=pk,
                                la=lg(amp), att=th(att_of(d / 100)) if d else NIL,
                                cor=th(corr.get(t, 0)), up=lg(amp + nz), lo=lg(amp - nz), ln=lg(nz),
                                er=er(amp, nz), id=t))
        if not any(o["gain"] != 100 or True for o in obs):
            continue
        # no gain at all: the noise is not corrected
        cols = ["epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain",
                "S_amp", "S_freq", "S_time", "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"]
        # without a gain the corrected noise is missing too
        for o in obs:
            if gains and o["amp"] == -1:
                o["noise"] = -1
        if gains and all(o["amp"] == -1 for o in obs):
            continue
        table = pd.DataFrame(rows, index=pd.Index(ids, name="id"))[cols]
        base = dict(A0=A0, use_hyp_dist=hyp, amp_feature=feat, amp_multiplier=mult,
                    station_corrections=corr)
        if not corr:
            base.pop("station_corrections")
        else:
            tags.add("corrections")
        trace = r.choice([None, ".*H[NE]$", ".*Z$", "AB", "^VQ.K"])
        for o in obs:
            o["tr"] = bool(trace and re.search(trace, o["id"]))

        def filters():
            at = [int(math.hypot(o["ed"], o["zd"]) if hyp else o["ed"]) for o in obs
                  if (o["ed"], o["zd"]) in ((300, 400), (800, 600))]
            f = dict(noise=r.choice([100, 100, 200, 250, 50, 0]),
                     trace=trace is not None and r.random() < 0.6,
                     dist=r.choice([0, 0, 5000, 1000] + at), hyp=hyp,
                     skip=sorted(r.sample(stns, r.choice([0, 0, 1, len(stns) // 2]))),
                     pick=r.random() < 0.3)
            if f["noise"]:
                # nothing exactly at the noise filter
                if any(o["amp"] * o["gain"] == o["noise"] * f["noise"] for o in obs):
                    f["noise"] = 100
            if f["dist"] in at and f["dist"]:
                tags.add("dist-at")
            for k, t in (("trace", "trace"), ("dist", "dist"), ("skip", "stations"), ("pick", "pick")):
                if f[k]:
                    tags.add(t)
            if f["noise"] == 0:
                tags.add("noise-off")
            if f["noise"] == 50:
                tags.add("noise-half")
            return f

        def params(f, weighted, r2all):
            p = dict(base)
            p["noise_filter"] = f["noise"] / 100
            if f["trace"]:
                p["trace_filter"] = trace
            if f["dist"]:
                p["dist_filter"] = f["dist"] / 100
            if f["skip"]:
                p["station_filter"] = f["skip"]
            p["pick_filter"] = f["pick"]
            p["weighted_mean"] = weighted
            p["r2_only_used"] = not r2all
            return p

        def mean_event(mag, mags, f, weighted, r2all):
            before = mags.copy(deep=True)
            mean, err, r2, out = mag.mean_magnitude(mags)
            kept = all(
                (a == b) or (pd.isna(a) and pd.isna(b))
                for t in out.index for col in cols + ["ML", "ML_Err"] if col != "Noise_amp"
                for a, b in [(out.loc[t, col], before.loc[t, col])]) if out.index.is_unique else False
            used = [ids.index(t) + 1 for t in out.index[out["Used"].astype(bool)]]
            if len(used) == 0:
                tags.add("none-used")
            tags.add("one-used" if len(used) == 1 else "many-used" if used else "none-used")
            ev.append(dict(e="mean", f={**f, "skip": list(f["skip"])}, weighted=weighted, r2all=r2all,
                           rows=[ids.index(t) + 1 for t in out.index], used=used,
                           mean=th(mean), err=th(err), r2=max(th(r2), -1000000) if th(r2) != NIL else NIL,
                           kept=bool(kept), pure=same(mags, before)))
            return mean, err, r2

        def mags_event(mag, mags, before):
            ev.append(dict(e="mags", ml=[th(x) for x in mags["ML"]] if list(mags.index) == ids else [],
                           mle=[th(x) for x in mags["ML_Err"]],
                           pure=same(table, before) and same(mags[cols], before)))

        before = table.copy(deep=True)
        mags = None
        for k in range(r.randint(2, 4)):
            f = filters()
            weighted = r.random() < 0.5
            r2all = r.random() < 0.4 and f["noise"] > 0
            if weighted:
                tags.add("weighted")
            if r2all:
                tags.add("r2-all")
            mag = Magnitude(params(f, weighted, r2all))
            if mags is None or r.random() < 0.4:
                mags = mag.calculate_magnitudes(table)
                mags_event(mag, mags, before)
            else:
                tags.add("again")
            mean_event(mag, mags, f, weighted, r2all)
            if k == 0 and random.Random(job["seed"] + rep).random() < 0.5:
                # a fit to all observations expected above the noise, without a noise filter
                g, raised = {**f, "noise": 0}, ""
                try:
                    Magnitude(params(g, weighted, True)).mean_magnitude(mags.copy(deep=True))
                except AttributeError as x:
                    raised = type(x).__name__
                tags.add("r2-refused" if raised else "r2-asked")
                ev.append(dict(e="refuse", f={**g, "skip": list(g["skip"])}, raised=raised))
        # the whole of LocalMag
        f = filters()
        weighted = r.random() < 0.5
        lm = LocalMag({}, params(f, weighted, False), plot_amplitudes=False)

        class Amp:
            noise_measure = "RMS"

            def get_amplitudes(self, event, lut):
                return before.copy(deep=True)
        lm.amp = Amp()
        event = Event(1.0)
        event.uid = "77"
        sub = r.choice(["", "s1"])
        rundir = Run(wd, f"m{rep}", sub, stage="locate")
        event, m = lm.calc_magnitude(event, None, rundir)
        mag = Magnitude(params(f, weighted, False))
        ref = mag.calculate_magnitudes(before.copy(deep=True))
        if before[feat].isnull().all():
            want = (np.nan,) * 3
        else:
            want = mean_event(mag, ref.copy(deep=True), f, weighted, False)
        got = tuple(event.localmag.get(k, "x") for k in ("ML", "ML_Err", "ML_r2"))
        diff = sum(1 for a, b in zip((*got, m), (*want, want[0]))
                   if not (isinstance(a, float) and (a == b or (math.isnan(a) and math.isnan(b)))))
        p = os.path.join(wd, f"m{rep}", "locate", sub, "amplitudes", "77.amps")
        head, frows = drv.rows_of(p) if os.path.exists(p) else ([], [])
        bad = 0 if [x["id"] for x in frows] == ids else 1
        for a, t in zip(frows, ids):
            for col, tol in [("epi_dist", 1e-4), ("z_dist", 1e-4), ("P_amp", 1e-4), ("S_amp", 1e-4),
                             ("Noise_amp", 1e-4), ("ML", 6e-3), ("ML_Err", 6e-3)]:
                if col in ("ML", "ML_Err") and before[feat].isnull().all():
                    continue
                x = ref.loc[t, col]
                y = float(a[col]) if a.get(col) not in ("", None) else math.nan
                if math.isnan(x) or math.isnan(y):
                    bad += math.isnan(x) != math.isnan(y)
                elif math.isfinite(x):
                    bad += not abs(x - y) <= tol * abs(x)
            bad += a.get("is_picked") != str(bool(before.loc[t, "is_picked"]))
        ev.append(dict(e="left", table=int(bad), event=int(diff)))
        tags.add("localmag")
        for o in obs:
            o.pop("id")
        cases.append(dict(key=f"mag-{rep}", hyp=hyp, obs=obs, ev=ev, note=dict(tags=sorted(tags))))
    return cases
