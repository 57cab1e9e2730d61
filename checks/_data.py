"""Drivers for the archive, availability, resampling and onset-set checks."""
import os
import pathlib
import random

from vlib import drv

FORMATS = ["SeisComp3", "YEAR/JD/*_STATION_*", "YEAR/JD/STATION", "STATION.YEAR.JULIANDAY",
           "/STATION/STATION.YearMonthDay", "YEAR_JD/STATION*", "YEAR_JD/STATION_*", "custom"]
CUSTOM = "wf_{year}{month:02d}/{jday:03d}.{day:02d}/{station}__*"


def path_for(fmt, day, st, chan):
    """Where a file belongs, after the documentation of Archive.path_structure."""
    y, j = day.year, day.julday
    return {
        "SeisComp3": f"{y}/VQ/{st}/{chan}.D/VQ.{st}..{chan}.D.{y}.{j:03d}",
        "YEAR/JD/*_STATION_*": f"{y}/{j:03d}/VQ_{st}_{chan}.m",
        "YEAR/JD/STATION": f"{y}/{j:03d}/{st}.{chan}.m",
        "STATION.YEAR.JULIANDAY": f"{st}.{chan}.{y}.{j:03d}",
        "/STATION/STATION.YearMonthDay": f"{st}/{st}.{y}{day.month:02d}{day.day:02d}",
        "YEAR_JD/STATION*": f"{y}_{j:03d}/{st}.{chan}.m",
        "YEAR_JD/STATION_*": f"{y}_{j:03d}/{st}_{chan}.m",
        "custom": f"wf_{y}{day.month:02d}/{j:03d}.{day.day:02d}/{st}__{chan}",
    }[fmt]


def value(k, ver):
    import numpy as np
    return ((np.asarray(k) % 1000000) * 4 + ver).astype(np.int32)


def runs_of(first, data, shift):
    """Stretches of [first, count, displacement, version] in trace numbering."""
    import numpy as np
    data = np.asarray(data)
    if not np.issubdtype(data.dtype, np.integer):
        return []
    k = first - shift + np.arange(len(data))
    d = (data // 4 - k + 500000) % 1000000 - 500000
    ver = data % 4
    cut = np.flatnonzero((np.diff(d) != 0) | (np.diff(ver) != 0)) + 1
    out = []
    for a, b in zip([0, *cut], [*cut, len(data)]):
        out.append([int(first + a), int(b - a), int(d[a]), int(ver[a])])
    return out


def trace_rec(tr, info, sr, shifted):
    """A recorded trace: its channel, station, place on the channel's grid and contents."""
    idn, stn, sh = info.get(tr.id, (0, 0, 0))
    rate = tr.stats.sampling_rate
    ns = tr.stats.starttime._ns - drv.DAY0._ns
    per = int(round(1e9 / rate))
    if shifted:
        k = int(round(ns / per))
    else:
        k = ns // per
    return dict(id=idn, st=stn, f=int(round(rate / sr)), k=int(k), n=int(tr.stats.npts),
                off=int(round((ns - k * per) / 1000)),
                runs=runs_of(k, tr.data, sh if shifted else 0))


def archive_jobs(tier, seed, salt):
    r = random.Random(seed * 15485863 + salt)
    return [dict(kind="archive", seed=r.randrange(1 << 30), n=8)
            for _ in range(40 if tier == "quick" else 500)]


def run_archive(job, wd, chk="read"):
    """Random archives around midnights, read through Archive.read_waveform_data."""
    import numpy as np
    import pandas as pd
    from obspy import Stream, Trace
    from quakemigrate.io.data import Archive
    r = random.Random(job["seed"])
    cases = []
    for rep in range(job["n"]):
        drv.set_base(r.choice(["2021-03-01", "2019-12-31", "2020-02-28", "2021-12-30"]))
        sr = r.choice([10, 20, 40, 50, 100])
        per = 86400 * sr
        fmt = r.choice(FORMATS)
        tags = [fmt]
        names = r.sample(["B", "AB", "BB", "ABC", "CAB", "KK1"], r.randint(1, 4))
        want = sorted(r.sample(range(len(names)), r.randint(1, len(names))))
        r.shuffle(want)
        everything = r.random() < 0.35
        if everything:
            tags.append("all-stations")
        if len(want) < len(names):
            tags.append("other-stations")
        interp = r.random() < 0.15
        mid = per * r.choice([1, 1, 1, 2])
        recs, info, files = [], {}, {}
        for si, st in enumerate(names):
            for chan in r.sample(["HHZ", "HHN", "HHE"], r.randint(1, 3)):
                f = r.choice([1, 1, 1, 2, 5]) if chk == "read" else 1
                if f > 1:
                    tags.append("mixed-rates")
                dl = 1000000 // (sr * f)
                off = 0
                if r.random() < (0.3 if chk == "read" else 0.8):
                    off = r.choice([1, dl // 3, dl // 2 - 1, dl // 2 + 1, 2 * dl // 3, dl - 1,
                                    r.randrange(1, dl)])
                    if 2 * off == dl:
                        off += 1
                    tags.append("off-grid")
                sh = 1 if 2 * off > dl else 0
                if fmt == "/STATION/STATION.YearMonthDay":
                    pass
                idn = len(info) + 1
                info[f"VQ.{st}..{chan}"] = (idn, si + 1, sh)
                m = mid * f
                kind = r.choice(["full", "full", "full", "gap", "split", "overlap", "conflict",
                                 "before", "after", "absent", "part", "spill", "rate"])
                if interp and kind in ("conflict", "rate"):
                    kind = "full"
                tags.append(kind)
                u = 12 * sr * f  # ~ extent about the window
                if chk == "grid":
                    u = 4 * sr
                mk = dict(id=idn, st=si + 1, off=off, sh=sh, f=f,
                          one=chk == "grid" and kind == "full")
                L = []  # first, count, version
                if kind == "full":
                    L = [(m - u, 2 * u, 0)]
                elif kind == "gap":
                    g = m + r.randint(-u // 2, u // 2)
                    w = r.choice([1, 2, r.randint(1, u)])
                    L = [(m - u, g - m + u, 0), (g + w, m + u - g, 0)]
                elif kind == "split":
                    g = m + r.randint(-u // 2, u // 2)
                    h = g + r.randint(1, u // 3)
                    L = [(m - u, g - m + u, 0), (g, h - g, 0), (h, m + u - h, 0)]
                elif kind == "overlap":
                    g = m + r.randint(-u // 2, u // 2)
                    h = g + r.randint(1, u // 3)
                    L = [(m - u, h - m + u, 0), (g, m + u - g, 0)]
                    if r.random() < 0.4:
                        L = [(m - u, 2 * u, 0), (g, h - g, 0)]
                elif kind == "conflict":
                    g = m + r.randint(-u // 2, u // 2)
                    h = g + r.randint(1, u // 3)
                    L = [(m - u, h - m + u, 0), (g, m + u - g, 1)]
                    if r.random() < 0.3:
                        L = [(m - u, 2 * u, 0), (g, h - g, 1)]
                elif kind == "before":
                    L = [(m - u, r.randint(1, u), 0)]
                elif kind == "after":
                    g = m + r.randint(0, u // 2)
                    L = [(g, r.randint(1, u), 0)]
                elif kind == "part":
                    g = m + r.randint(-u // 2, u // 2)
                    L = [(g, r.randint(1, u // 4), 0)]
                elif kind == "spill":
                    L = [(m - u, 2 * u, 0)]
                elif kind == "rate":
                    L = [(m - u, u, 0)]
                for n_, (a, n, ver) in enumerate(L):
                    if n < 1:
                        continue
                    p = per * f
                    while n > 0:
                        d = a // p
                        w = min(n, (d + 1) * p - a)
                        if kind == "spill" and a + w == (d + 1) * p and n > w:
                            w = min(n, w + r.randint(1, 5))
                        recs.append(dict(mk, k=int(a), n=int(w), ver=ver, day=int(d)))
                        a, n = a + w, n - w
                if kind == "rate":
                    recs.append(dict(mk, k=int(2 * m), n=int(2 * u), ver=0, day=int(m // (per * f)),
                                     f=2 * f))
        ids = {v[0]: key for key, v in info.items()}
        for q in recs:
            key = ids[q["id"]]
            _, st, _, chan = key.split(".")
            rate = sr * q["f"]
            day = drv.DAY0 + 86400 * q["day"]
            pth = path_for(fmt, day, st, chan)
            k = np.arange(q["k"], q["k"] + q["n"])
            files.setdefault(pth, []).append(Trace(
                value(k, q["ver"]), header=dict(
                    network="VQ", station=st, channel=chan, sampling_rate=rate,
                    starttime=drv.DAY0 + int(q["k"]) / rate + q["off"] / 1e6)))
        root = pathlib.Path(wd) / f"a{rep}"
        root.mkdir()
        for pth, trs in files.items():
            (root / pth).parent.mkdir(parents=True, exist_ok=True)
            r.shuffle(trs)
            Stream(trs).write(str(root / pth), format="MSEED",
                              reclen=256 if chk == "read" else 4096)
        junk = []
        if r.random() < 0.25:
            d = mid // per - r.randint(0, 1)
            st = names[want[0]]
            day = drv.DAY0 + 86400 * d
            pth = path_for(fmt, day, st, "XXX") if fmt != "/STATION/STATION.YearMonthDay" \
                else path_for(fmt, day, st, "")
            if pth not in files:
                (root / pth).parent.mkdir(parents=True, exist_ok=True)
                (root / pth).write_text("this is no waveform file\n" * 20)
                junk.append(int(d))
                tags.append("junk")
        order = [names[j] for j in want]
        kw = dict(read_all_stations=everything, interpolate=interp)
        if fmt == "custom":
            a_ = Archive(root, pd.DataFrame({"Name": order}), format=CUSTOM, **kw)
        else:
            a_ = Archive(root, pd.DataFrame({"Name": order}), archive_format=fmt, **kw)
        ev = []
        rec_id = {i: [q for q in recs if q["id"] == i] for i in ids}
        for _ in range(4):
            w = r.choice([1, 7, 2 * sr, 5 * sr])
            a = mid + r.choice([-w, 0, -1, 1, -w // 2, r.randint(-8 * sr, 6 * sr)])
            pre, post = r.choice([(0, 0), (r.randint(0, 3 * sr), r.randint(0, 3 * sr))])
            if pre or post:
                tags.append("pads")
            b = a + w
            if (a - pre) // per != (b + post) // per:
                tags.append("across-midnight")
                if (drv.DAY0 + (a - pre) / sr).year != (drv.DAY0 + (b + post) / sr).year:
                    tags.append("year-end")
            e = dict(e="read", a=a, b=b, pre=pre, post=post, raised="", raw=[], wf=[],
                     again=True)
            ta, tb = drv.DAY0 + a / sr, drv.DAY0 + b / sr
            try:
                d = a_.read_waveform_data(ta, tb, pre / sr, post / sr)
                e["raw"] = [trace_rec(t, info, sr, False) for t in d.raw_waveforms]
                e["wf"] = [trace_rec(t, info, sr, True) for t in d.waveforms]
                if interp:
                    for t, tr in zip(e["wf"], d.waveforms):
                        if not info.get(tr.id) or any(q["off"] for q in rec_id[t["id"]]):
                            t["runs"] = []
                e["again"] = bool(d.starttime == ta and d.endtime == tb
                                  and list(a_.stations) == order
                                  and list(d.stations) == order)
            except Exception as x:  # noqa: BLE001
                if type(x).__module__ != "quakemigrate.util":
                    raise
                e["raised"] = type(x).__name__
                tags.append(type(x).__name__)
            ev.append(e)
        cases.append(dict(
            key=f"archive-{rep}", ev=ev, recs=recs, want=[j + 1 for j in want], all=everything,
            per=per, junk=junk, chk=chk, note=dict(tags=sorted(set(tags)), fmt=fmt, names=names)))
    return cases


# ---------------------------------------------------------------- availability

W0 = "2021-03-01T00:01:00"


def t_at(us):
    from obspy import UTCDateTime
    return UTCDateTime(ns=UTCDateTime(W0)._ns + int(us) * 1000)


def us_of(t):
    from obspy import UTCDateTime
    ns = UTCDateTime(t)._ns - UTCDateTime(W0)._ns
    return int(round(ns / 1000))


def mk_trace(data, s, p, st="AA", chan="HHZ", loc=""):
    from obspy import Trace
    return Trace(data, header=dict(network="VQ", station=st, channel=chan, location=loc,
                                   sampling_rate=1e6 / p, starttime=t_at(s)))


def rate(p):
    q = 1e6 / p
    return int(q) if q == int(q) else q


def avail_jobs(tier, seed):
    r = random.Random(seed * 32452843 + 19)
    return [dict(kind="avail", seed=r.randrange(1 << 30), n=60)
            for _ in range(16 if tier == "quick" else 200)]


def digest(st):
    return [(t.id, t.stats.starttime._ns, t.stats.npts, t.stats.sampling_rate,
             str(t.data.dtype), t.data.tobytes()) for t in st]


def run_avail(job, wd):
    import numpy as np
    import pandas as pd
    from obspy import Stream
    from quakemigrate.io.data import WaveformData
    r = random.Random(job["seed"])
    rng = np.random.default_rng(job["seed"])
    cases = []
    for rep in range(job["n"]):
        p = r.choice([1000000, 100000, 40000, 25000, 20000, 10000, 5000, 4000])
        nW = r.choice([3, 10, r.randint(5, 60), r.randint(100, 800)])
        W = nW * p
        tags = []
        T, st = [], Stream()
        kinds = []
        for i in range(r.choice([0, 1, 1, 2, 3, 4])):
            st_, loc = "AA", r.choice(["", "", "00"])
            chan = ["HHZ", "HHN", "HHE", "HH1"][i]
            kind = r.choice(["full", "full", "full", "gap", "overlap", "late", "early", "long",
                             "flat", "flatpiece", "rate", "ratemix", "adjacent", "shifted",
                             "nested"])
            kinds.append(kind)
            g = r.randint(1, max(1, nW - 1))
            L = {"full": [(0, nW + 1)], "flat": [(0, nW + 1)], "rate": [(0, nW + 1)],
                 "gap": [(0, g), (g + r.choice([1, 1, 2]), max(1, nW - g))],
                 "overlap": [(0, g + 1), (g - r.randint(0, g - 1) if g > 1 else g, nW)],
                 "late": [(r.choice([1, 2]), nW + r.choice([-1, 0, 1]))],
                 "early": [(0, nW + 1 - r.choice([1, 1, 2]))],
                 "long": [(-r.randint(0, 3), nW + 1 + r.randint(0, 6))],
                 "flatpiece": [(0, g), (g + 2, max(1, nW - g))],
                 "ratemix": [(0, g), (g + 2, max(1, nW - g))],
                 "adjacent": [(0, g), (g, nW + 1 - g)],
                 "nested": [(0, nW + 1), (g // 2, max(1, g // 2))],
                 "shifted": [(0, nW + 1)]}[kind]
            for j, (k, n) in enumerate(L):
                pp, s = p, k * p
                if kind == "rate" or (kind == "ratemix" and j):
                    pp = 2 * p
                if kind == "shifted":
                    s += r.choice([1, -1]) * r.randint(1, p // 2 - 1) // 10 * 10
                flat = kind == "flat" or (kind == "flatpiece" and j == r.randint(0, 1)) or n == 1
                x = rng.integers(-1000, 1000, n)
                if flat:
                    x[:] = r.choice([0, 7, -3])
                elif n > 1:
                    x[0], x[1] = 2000, -2000
                    if r.random() < 0.3:
                        x[1:] = 5  # flat but for one sample
                x = x.astype(r.choice([np.int32, np.float64]))
                tr = mk_trace(x, s, pp, st_, chan, loc)
                st += tr
                T.append(dict(id=tr.id, s=int(s), n=int(n), p=pp, flat=bool(flat)))
        ids = {x: j + 1 for j, x in enumerate(sorted({t["id"] for t in T}))}
        for t in T:
            t["id"] = ids[t["id"]]
        tags += kinds
        d = WaveformData(t_at(0), t_at(W), stations=pd.Series(["AA"]))
        mixed = "ratemix" in kinds
        order = list(range(len(st)))
        r.shuffle(order)
        st = Stream([st[j] for j in order])
        before = digest(st)
        ev = []
        for gaps in (False, True):
            for full in (False, True):
                for csr in ((True,) if mixed else (False, True)):
                    for ends in (False, True):
                        for al in (False, True):
                            o = dict(gaps=gaps, full=full, csr=csr, ends=ends, all=al,
                                     rate=r.choice([p] * 9 + [0]),
                                     count=r.choice([len(ids), 1, 2, 3, 0]))
                            e = dict(e="avail", T=T, o=o, W=W, ret=0, av=[], raised="", pure=True)
                            try:
                                ret, av = d.check_availability(
                                    st, all_channels=al, n_channels=o["count"] or None,
                                    allow_gaps=gaps, full_timespan=full, check_sampling_rate=csr,
                                    sampling_rate=rate(p) if o["rate"] else None,
                                    check_start_end_times=ends)
                                e["ret"] = int(ret)
                                e["av"] = [[ids.get(k, 0), int(v)] for k, v in av.items()]
                            except TypeError as x:
                                e["raised"] = type(x).__name__
                            e["pure"] = digest(st) == before
                            ev.append(e)
        cases.append(dict(key=f"avail-{rep}", ev=ev, module="WaveTrace",
                          note=dict(tags=sorted(set(tags)))))
    return cases


# ---------------------------------------------------------------- resampling

def resample_jobs(tier, seed):
    r = random.Random(seed * 49979687 + 20)
    k = 1 if tier == "quick" else 12
    return ([dict(kind="resample", seed=r.randrange(1 << 30), n=25) for _ in range(16 * k)]
            + [dict(kind="shift", seed=r.randrange(1 << 30), n=25) for _ in range(8 * k)]
            + [dict(kind="archive", chk="grid", seed=r.randrange(1 << 30), n=6)
               for _ in range(8 * k)])


class Count:
    """Counts log records; logging is switched on while it does."""

    def __enter__(self):
        import logging
        outer = self
        self.n = 0

        class H(logging.Handler):
            def emit(self, rec):
                outer.n += 1
        self.h = H(logging.INFO)
        self.log = logging.getLogger()
        self.old = self.log.level
        logging.disable(logging.NOTSET)
        self.log.setLevel(logging.INFO)
        self.log.addHandler(self.h)
        return self

    def __exit__(self, *a):
        import logging
        self.log.removeHandler(self.h)
        self.log.setLevel(self.old)
        logging.disable(logging.CRITICAL)


def wave(t_us, period, ph):
    import numpy as np
    return 1000 * np.cos(2 * np.pi * np.asarray(t_us, float) / period + ph)


def run_resample(job, wd):
    import numpy as np
    from obspy import Stream
    import quakemigrate.util as util
    r = random.Random(job["seed"])
    cases = []
    rates = [20, 25, 40, 50, 80, 100, 125, 200, 250, 10]
    for rep in range(job["n"]):
        qr = r.choice([20, 25, 40, 50, 100])
        q = 1000000 // qr
        up = r.choice([0, 0, 2, 3, 5, 5, 4])
        resamp = up > 0
        upf = up or None
        if up and r.random() < 0.2:
            resamp = False
        elif not up and r.random() < 0.2:
            resamp = True
        u = up if resamp else 0
        W = r.choice([1000000, 4000000, 12000000, 20000000])
        T, st, tags, exp = [], Stream(), [], {}
        for i in range(r.randint(1, 4)):
            p = 1000000 // r.choice(rates)
            if r.random() < 0.6:
                ok = [x for x in rates if u and (u * x) % qr == 0] or rates
                p = 1000000 // r.choice(ok + [x for x in rates if x % qr == 0])
            kind = ("same" if p == q else "decimate" if q % p == 0 else
                    "left" if not u else "bad" if (u * q) % p else "interpolate")
            tags.append(kind)
            step = p // u if kind == "interpolate" else p
            a = r.choice([0, 0, 0, step * r.randint(-6, 6), step * r.randint(0, max(1, W // step))])
            if a % q:
                tags.append("start-off-target-grid")
            room = (W - a) // p + 1
            n = r.choice([room, room, max(2, room), r.randint(2, max(3, room + 5))])
            n = max(2, n)
            ph = r.uniform(0, 6.28)
            period = 20 * max(p, q)
            ts = a + p * np.arange(n)
            x = wave(ts, period, ph)
            A = np.c_[ts / W, np.ones(n)]
            line = np.linalg.lstsq(A, x, rcond=None)[0]
            x = x - A @ line
            if r.random() < 0.4:
                x = np.rint(x).astype(np.int32)
            tr = mk_trace(x, a, p, "AA", "HHZ", f"{i:02d}")
            st += tr
            T.append(dict(id=i + 1, s=int(a), n=int(n), p=p, flat=False))
            exp[tr.id] = (i + 1, kind, ts, x, period, ph, line, a, a + (n - 1) * p)
        before = digest(st)
        e = dict(e="resample", T=T, q=q, u=u, W=W, out=[], told=0, pure=True, raised="")
        with Count() as c:
            try:
                out = util.resample(st, qr, resamp, upf, t_at(0), t_at(W))
            except util.BadUpfactorException:
                e["raised"] = "BadUpfactorException"
                tags.append("BadUpfactorException")
                out = Stream()
        e["told"] = c.n
        e["pure"] = digest(st) == before
        for tr in out:
            i, kind, ts, x, period, ph, line, a, b = exp[tr.id]
            exp_p = {y["id"]: y["p"] for y in T}
            s, n = us_of(tr.stats.starttime), int(tr.stats.npts)
            pp = int(round(1e6 / tr.stats.sampling_rate))
            t = s + pp * np.arange(n)
            err, equal = 0, True
            if kind == "same":
                k0 = (s - a) // pp
                equal = bool((s - a) % pp == 0 and k0 >= 0 and k0 + n <= len(x)
                             and tr.data.dtype == x.dtype and (tr.data == x[k0:k0 + n]).all())
            elif kind != "left":
                w = (t > a + 0.15 * (b - a)) & (t < b - 0.15 * (b - a))
                # the filter settles within a few target samples
                w &= (t > a + 20 * max(q, pp)) & (t < b - 20 * max(q, pp)) & (b - a > 100 * max(q, exp_p[i]))
                if w.any():
                    want = wave(t[w], period, ph) - np.c_[t[w] / W, np.ones(w.sum())] @ line
                    err = int(round(np.abs(tr.data[w] - want).max()))
                    tags.append("values")
            e["out"].append(dict(id=i, s=s, n=n, p=pp, err=err, equal=equal))
        cases.append(dict(key=f"resample-{rep}", ev=[e], module="WaveTrace",
                          note=dict(tags=sorted(set(tags)))))
    return cases


def run_shift(job, wd):
    import numpy as np
    from obspy import Stream
    import quakemigrate.util as util
    r = random.Random(job["seed"])
    cases = []
    for rep in range(job["n"]):
        interp = r.random() < 0.5
        T, st, exp, tags = [], Stream(), {}, ["interpolated" if interp else "retimed"]
        for i in range(r.randint(1, 4)):
            p = 1000000 // r.choice([1, 10, 20, 25, 40, 50, 100, 200, 250, 500])
            d = r.choice([0, 1, p // 2, p // 2 - 1, p // 2 + 1, p - 1, r.randrange(p)])
            s = p * r.randint(-50, 50) + d
            n = r.choice([r.randint(60, 100), r.randint(200, 400)])
            ts = s + p * np.arange(n)
            ph, period = r.uniform(0, 6.28), p * r.randint(12, 25)
            x = wave(ts, period, ph)
            if not interp and r.random() < 0.5:
                x = np.rint(x).astype(np.int32)
            tr = mk_trace(x, s, p, "AA", "HHZ", f"{i:02d}")
            st += tr
            T.append(dict(id=i + 1, s=int(s), n=n, p=p))
            exp[tr.id] = (i + 1, x, period, ph, d)
            tags.append("on-grid" if d == 0 else "back" if 2 * d < p else "forward")
        before = digest(st)
        out = util.shift_to_sample(st, interpolate=interp)
        e = dict(e="shift", T=T, out=[], interp=interp, pure=digest(st) == before)
        for tr in out:
            i, x, period, ph, d = exp[tr.id]
            s, n = us_of(tr.stats.starttime), int(tr.stats.npts)
            pp = int(round(1e6 / tr.stats.sampling_rate))
            err = 0
            if interp and d:
                k = np.arange(25, n - 25)
                want = wave(s + pp * k, period, ph)
                err = int(round(np.abs(tr.data[k] - want).max())) if len(k) else 0
            e["out"].append(dict(id=i, s=s, n=n, p=pp, err=err, equal=bool(
                len(tr.data) == len(x) and (tr.data == x).all())))
        cases.append(dict(key=f"shift-{rep}", ev=[e], module="WaveTrace",
                          note=dict(tags=sorted(set(tags)))))
    return cases


# ---------------------------------------------------------------- onset sets

def onset_jobs(tier, seed):
    r = random.Random(seed * 67867967 + 4)
    return [dict(kind="onsets", seed=r.randrange(1 << 30), n=10)
            for _ in range(32 if tier == "quick" else 400)]


def sta_lta(x, ns, nl, centred):
    """The documented transform, from window means."""
    import numpy as np
    c = np.r_[0.0, np.cumsum(x)]
    out = np.ones(len(x))
    i = np.arange(nl - 1, len(x) - (ns if centred else 0))
    lta = (c[i + 1] - c[i + 1 - nl]) / nl
    sta = (c[i + 1 + ns] - c[i + 1]) / ns if centred else (c[i + 1] - c[i + 1 - ns]) / ns
    ok = lta > 0
    out[i[ok]] = sta[ok] / lta[ok]
    return out


def reference_onset(traces, qr, bp, win, on, T0_, T1_, timespan, pads):
    """The onset function of one station and phase built from these (complete) components."""
    import numpy as np
    from obspy import Stream
    from scipy.signal import hilbert
    import quakemigrate.util as util
    ns, nl = int(round(win[0] * qr)) + 1, int(round(win[1] * qr)) + 1
    rows = []
    for tr in traces:
        st = util.resample(Stream([tr]), qr, False, None, T0_, T1_)
        st.detrend("linear")
        st.detrend("constant")
        st.taper(type="cosine", max_percentage=0.05)
        st.filter(type="bandpass", freqmin=bp[0], freqmax=bp[1], corners=bp[2], zerophase=True)
        x = st[0].data
        x = {"energy": lambda v: v ** 2, "abs": np.abs, "env": lambda v: np.abs(hilbert(v)),
             "env_squared": lambda v: np.abs(hilbert(v)) ** 2}[on.signal_transform](x)
        o = sta_lta(x, ns, nl, on.position == "centred")
        if timespan:
            extra = int(round((pads - on.pre_pad) * qr))
            o[:extra + nl - 1] = 1.0
            o[-(ns + extra):] = 1.0
        rows.append(o)
    return np.maximum(np.sqrt(np.mean(np.square(rows), axis=0)), on.min_onset_value)


def run_onsets(job, wd):
    import numpy as np
    import pandas as pd
    from obspy import Stream
    from quakemigrate.io.data import WaveformData
    from quakemigrate.signal.onsets import STALTAOnset
    import quakemigrate.util as util
    r = random.Random(job["seed"])
    rng = np.random.default_rng(job["seed"])
    cases = []
    for rep in range(job["n"]):
        qr = r.choice([20, 50, 50])
        q = 1000000 // qr
        W = r.choice([20, 30, 40]) * 1000000
        tags = []
        phases = r.choice([["P", "S"], ["P", "S"], ["S", "P"], ["P"], ["S"]])
        cm = r.choice([{"P": "*Z", "S": "*[N,E,1,2]"}] * 3 + [{"P": "*[Z,H]", "S": "*[N,E]"},
                                                             {"P": "HH*", "S": "*[1,2]"}])
        cc = r.choice([{"P": 1, "S": 2}] * 3 + [{"P": 2, "S": 2}, {"P": 1, "S": 1}])
        wins = {"P": [r.choice([0.1, 0.2]), r.choice([1.0, 1.5])],
                "S": [r.choice([0.2, 0.4]), r.choice([1.0, 2.0])]}
        bp = {"P": [2.0, 8.0, 2], "S": [1.0, 6.0, r.choice([2, 4])]}
        o = dict(gaps=r.random() < 0.35, full=r.random() < 0.7, all=r.random() < 0.3)
        up = r.choice([0, 0, 5])
        on = STALTAOnset(
            sampling_rate=qr, phases=phases, channel_maps=dict(cm), channel_counts=dict(cc),
            sta_lta_windows=wins, bandpass_filters=bp, all_channels=o["all"],
            allow_gaps=o["gaps"], full_timespan=o["full"],
            position=r.choice(["classic", "classic", "centred"]),
            signal_transform=r.choice(["energy", "energy", "abs", "env", "env_squared"]),
            min_onset_value=r.choice([0.4, 0.01, 0.9]))
        on.post_pad = 1.0
        if o["all"]:
            tags.append("all-channels")
        if o["gaps"]:
            tags.append("gaps-allowed")
        if not o["full"]:
            tags.append("part-allowed")
        names = r.sample(["AA", "A", "AAB", "BA", "BB", "CC"], r.randint(1, 3))
        asked = list(names)
        if r.random() < 0.3:
            asked.append(r.choice([x for x in ("ZZ", "A", "AB", "B") if x not in names]))
            tags.append("no-data-station")
        if len(asked) > 1 and r.random() < 0.2:
            asked.pop(0)
            tags.append("data-not-asked-for")
        every = names + [x for x in asked if x not in names]
        T, st, good = [], Stream(), {}
        hard = r.random() < 0.15
        for si, name in enumerate(names):
            for chan, loc in [("HHZ", ""), ("HHN", ""), ("HHE", ""), ("HH1", ""), ("HH2", ""),
                              ("BHZ", ""), ("HHZ", "10"), ("LDH", "")]:
                pr = {"HHZ": 0.85, "HHN": 0.75, "HHE": 0.75, "HH1": 0.15, "HH2": 0.15,
                      "BHZ": 0.1, "LDH": 0.2}[chan] if not loc else 0.1
                if r.random() > pr:
                    continue
                kind = r.choice(["ok"] * 5 + ["fast", "gap", "late", "early", "flat", "rate",
                                              "overlap", "gapflat"])
                if hard:
                    kind = r.choice(["gap", "flat", "rate", "late"])
                tags.append(kind)
                p = q
                if kind == "fast" or (kind in ("gap", "late", "early") and r.random() < 0.5):
                    p = q // r.choice([2, 5])
                if kind == "rate":
                    p = 1000000 // {20: 25, 50: 40}[qr]
                n = W // p + 1
                g = r.randint(n // 4, n // 2)
                L = {"gap": [(0, g), (g + r.choice([1, 2, 3, 20]), n)],
                     "gapflat": [(0, g), (g + 20, n)],
                     "overlap": [(0, g), (g - 15, n)],
                     "late": [(r.choice([1, 2, 7]), n)],
                     "early": [(0, n - r.choice([1, 2, 7]))]}.get(kind, [(0, n)])
                for j, (a, b) in enumerate(L):
                    x = np.rint(rng.normal(0, 500, b - a) * (1 + 3 * rng.random())).astype(np.int32)
                    flat = kind == "flat" or (kind == "gapflat" and j == 0)
                    if flat:
                        x[:] = r.choice([0, 5, -1234567, 3])
                    if r.random() < 0.3:
                        x = x.astype(float)
                        if flat:
                            x *= 1.1
                    tr = mk_trace(x, a * p, p, name, chan, loc)
                    st += tr
                    T.append(dict(id=tr.id, st=si + 1, comp=ord(chan[-1]), s=int(a * p),
                                  n=int(b - a), p=p, flat=bool(flat), name=chan))
                if kind in ("ok", "fast"):
                    good[st[-1].id] = st[-1].copy()
        ids = {x: j + 1 for j, x in enumerate(sorted({t["id"] for t in T}))}
        idkind = {}
        for t in T:
            t["id"] = ids[t["id"]]
        letters = {"*Z": "Z", "*[N,E,1,2]": "NE12", "*[Z,H]": "ZH", "*[N,E]": "NE", "*[1,2]": "12",
                   "HH*": None}
        # components by their last letter; 'HH*' by instrument, coded as letter + 100 otherwise
        ph = []
        for name in phases:
            ls = letters[cm[name]]
            ph.append(dict(name=name, count=cc[name],
                           comps=[ord(x) for x in ls] if ls else [-1]))
        if cm["P"] == "HH*":
            # a map by instrument code: number the components so that both maps can be told
            for t in T:
                t["comp"] = t["comp"] if t["name"].startswith("HH") else t["comp"] + 100
            for x in ph:
                if x["comps"] == [-1]:
                    x["comps"] = [ord(y) for y in "ZNE12"]
                else:
                    x["comps"] += [y + 100 for y in x["comps"]]
        for t in T:
            del t["name"]
        order = list(range(len(st)))
        r.shuffle(order)
        st = Stream([st[j] for j in order])
        d = WaveformData(t_at(0), t_at(W), stations=pd.Series(asked), resample=up > 0,
                         upfactor=up or None)
        d.waveforms = st
        before = digest(st)
        u = up
        timespan = r.choice([None, None, 8.0])
        e = dict(e="onsets", T=T, phases=ph, stations=[every.index(x) + 1 for x in asked],
                 o=o, q=q, u=u, W=W, avail=[], rows=[], named=[], raised="", pure=True)
        if timespan:
            tags.append("timespan")
        try:
            rows, od = on.calculate_onsets(d, timespan=timespan)
        except (util.DataAvailabilityException, util.BadUpfactorException) as x:
            e["raised"] = type(x).__name__
            tags.append(e["raised"])
            rows, od = [], None
        e["pure"] = digest(st) == before
        if od is not None:
            keys = list(od.availability)
            e["avail"] = [[every.index(k.rsplit("_", 1)[0]) + 1, phases.index(k.rsplit("_", 1)[1]) + 1,
                           int(v)] for k, v in od.availability.items()]
            ones = [k for k in keys if od.availability[k] == 1]
            pads = on.pad(timespan)[0] if timespan else None
            for k, row in zip(ones, rows):
                name, p_ = k.rsplit("_", 1)
                import fnmatch
                mine = [t for t in st if t.stats.station == name
                        and fnmatch.fnmatch(t.stats.channel, cm[p_])]
                use = [good[i] for i in dict.fromkeys(t.id for t in mine) if i in good]
                rest = [t for t in mine if t.id not in good]
                err = 0
                # components that are certainly unusable or certainly used
                sure = all(len(set(t.data.tolist())) == 1 for t in rest) or (
                    o["full"] and not up)
                if use and sure and o["full"] and not o["gaps"]:
                    ref = reference_onset(use, qr, bp[p_], wins[p_], on, d.starttime, d.endtime,
                                          timespan, pads)
                    if len(ref) == len(row):
                        err = int(min(1e6, np.abs(np.log(row) - np.log(ref)).max() * 1e5))
                        tags.append("value")
                e["rows"].append(dict(n=int(len(row)), err=err, floor=int(min(0, np.floor(
                    1e9 * (row.min() - on.min_onset_value)))) if np.isfinite(row).all() else -9))
            e["rows"] += [dict(n=0, err=0, floor=0)] * (len(rows) - len(e["rows"]))
            j = {k: i for i, k in enumerate(ones)}
            for name, dd in od.onsets.items():
                for p_, row in dd.items():
                    k = f"{name}_{p_}"
                    e["named"].append([every.index(name) + 1, phases.index(p_) + 1, int(
                        k in j and j[k] < len(rows) and np.array_equal(rows[j[k]], row))])
        cases.append(dict(key=f"onsets-{rep}", ev=[e], module="WaveTrace",
                          note=dict(tags=sorted(set(tags)))))
    return cases
