"""Histories of operations on lookup tables, observed through the public interface."""
import copy
import os
import random

import numpy as np
import pandas as pd

from vlib import drv

NAMES = ["AA", "B1", "CCC", "D", "EE"]


def world(r):
    """Two base grids; sources = station tables on them."""
    from pyproj import Proj, Transformer
    units = r.choice(["km", "m"])
    f = 1.0 if units == "km" else 1000.0
    lon, lat = r.choice([(-18.0, 64.0), (12.5, 42.0), (116.0, -8.0), (-70.0, -33.0)])
    cp = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
    kind = r.choice(["lcc", "tmerc"])
    if kind == "lcc":
        gp = Proj(proj="lcc", lon_0=lon, lat_0=lat, lat_1=lat - 0.5, lat_2=lat + 0.5,
                  datum="WGS84", ellps="WGS84", units=units, no_defs=True)
    else:
        gp = Proj(proj="tmerc", lon_0=lon, lat_0=lat, datum="WGS84", ellps="WGS84", units=units,
                  no_defs=True)
    inv = Transformer.from_proj(gp, cp)
    fwd = Transformer.from_proj(cp, gp)
    grids = []
    n = [r.choice([1, 2, 3, 4, 5, 6, 7]) for _ in range(3)]
    while np.prod(n) > 60:
        n[r.randrange(3)] = r.choice([1, 2, 3])
    sp = [r.choice([0.05, 0.1, 0.2]) for _ in range(3)] if r.random() < 0.5 else [r.choice(
        [0.1, 0.2])] * 3
    ll = [r.choice([-0.5, 0.0, 0.3]), r.choice([-0.2, 0.0]), r.choice([-0.5, 0.0, 0.2])]
    defs = [(n, sp, ll)]
    k = r.randrange(4)
    if k == 0:
        defs.append((n, [2 * x for x in sp], ll))
    elif k == 1:
        defs.append((n, sp, [ll[0] + 0.1, ll[1], ll[2]]))
    elif k == 2:
        defs.append(([n[0] + 1, n[1], n[2]], sp, ll))
    else:
        defs.append((n, sp, [ll[0], ll[1], ll[2] - 0.1]))
    for n_, sp_, ll_ in defs:
        llg = np.array(ll_) * f
        spg = np.array(sp_) * f
        urg = llg + (np.array(n_) - 1 - 1e-6) * spg
        ijk = np.stack(np.meshgrid(*[np.arange(m) for m in n_], indexing="ij"), -1).reshape(-1, 3)
        xyz = llg + ijk * spg
        lo, la, z = inv.transform(xyz[:, 0], xyz[:, 1], xyz[:, 2])
        grids.append(dict(spec=dict(ll_corner=inv.transform(*llg), ur_corner=inv.transform(*urg),
                                    node_spacing=(sp_[0] * f if len(set(sp_)) == 1
                                                  and r.random() < 0.5 else [x * f for x in sp_]),
                                    grid_proj=gp, coord_proj=cp),
                          n=list(n_), sp=[int(round(x * 1e6)) for x in sp_],
                          ll=[int(round(x * 1e6)) for x in ll_], xyz=xyz,
                          geo=np.c_[lo, la, z]))
    return units, f, grids, fwd, inv


class Hist:
    def __init__(self, job, wd):
        self.r = random.Random(job["seed"])
        self.wd = wd
        self.units, self.f, self.grids, self.fwd, self.inv = world(self.r)
        self.phases = self.r.choice([["P", "S"], ["P", "S"], ["P"], ["S", "P"]])
        self.frac = self.r.choice([0.1, 0.05, 0.2])
        self.h, self.base, self.ev, self.src, self.tags = [], [], [], [], {self.units}

    # ---- building -------------------------------------------------------------------
    def new(self, b, names):
        from quakemigrate.lut import compute_traveltimes
        r = self.r
        g = self.grids[b]
        v = {p: r.choice([3000, 4000, 5000, 6000]) if p == "P" else r.choice([1000, 2000])
             for p in self.phases}
        rows, st = [], []
        for nm in names:
            p = g["xyz"][r.randrange(len(g["xyz"]))] / self.f
            p = p + np.array([r.choice([0.0, 0.031, -0.07]) for _ in range(3)])
            lo, la, z = self.inv.transform(*(p * self.f))
            rows.append(dict(Network="VQ", Name=nm, Longitude=lo, Latitude=la, Elevation=z))
            x = np.array(self.fwd.transform(lo, la, z))
            d = np.sqrt(((g["xyz"] - x) ** 2).sum(1)) / self.f * 1000   # metres
            self.src.append(dict(base=b + 1, v=[v[q] for q in self.phases],
                                 xyz=[int(round(c * 1e6)) for c in p],
                                 tt=[np.rint(d / v[q] * 1e6).astype(int).tolist()
                                     for q in self.phases]))
            st.append([nm, len(self.src)])
        t = compute_traveltimes(g["spec"], pd.DataFrame(rows), method="homogeneous",
                                phases=list(self.phases), fraction_tt=self.frac,
                                **{f"v{q.lower()}": v[q] / 1000 * self.f for q in self.phases})
        self.h.append(t)
        self.base.append(b)
        self.ev.append(dict(e="new", base=b + 1, st=st))

    def nll(self, names):
        """A table read from NonLinLoc time grids."""
        from pyproj import Proj, Transformer
        from quakemigrate.lut import read_nlloc
        r = self.r
        lat, lon = r.choice([(64.33, -17.21), (42.1, 12.7), (-8.3, 116.2), (0.5, 30.0)])
        n = [r.choice([1, 2, 3, 4, 5, 6]) for _ in range(3)]
        while np.prod(n) > 60:
            n[r.randrange(3)] = r.choice([1, 2, 3])
        sp = [r.choice([0.1, 0.25, 0.3, 0.5, 1.0])] * 3
        o = [r.choice([-5.3, 0.0, -20.1, 12.7]), r.choice([-5.3, 0.0, -20.1]),
             r.choice([-1.3, 0.0])]
        kind = r.choice(["LAMBERT", "TRANS_MERC"])
        if kind == "LAMBERT":
            line = (f"TRANSFORM  LAMBERT RefEllipsoid WGS-84  LatOrig {lat}  LongOrig {lon}  "
                    f"FirstStdParal {lat - 0.5}  SecondStdParal {lat + 0.5}  RotCW 0.0")
            gp = Proj(proj="lcc", lon_0=lon, lat_0=lat, lat_1=lat - 0.5, lat_2=lat + 0.5,
                      units="km", ellps="WGS84", datum="WGS84")
        else:
            line = (f"TRANSFORM  TRANS_MERC RefEllipsoid WGS-84  LatOrig {lat}  LongOrig {lon}"
                    "  RotCW 0.0  UseFalseEasting 0  FalseEasting 500000  ScaleFactor 1.0")
            gp = Proj(proj="tmerc", lon_0=lon, lat_0=lat, units="km")
        self.units, self.f = "km", 1.0
        cp = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
        self.inv = Transformer.from_proj(gp, cp)
        self.fwd = Transformer.from_proj(cp, gp)
        ijk = np.stack(np.meshgrid(*[np.arange(m) for m in n], indexing="ij"), -1).reshape(-1, 3)
        xyz = np.array(o) + ijk * np.array(sp)
        self.grids = [dict(n=n, sp=[int(round(x * 1e6)) for x in sp],
                           ll=[int(round(x * 1e6)) for x in o], xyz=xyz,
                           geo=np.column_stack(self.inv.transform(*xyz.T)))]
        d = os.path.join(self.wd, "nll")
        os.makedirs(d)
        rng = np.random.default_rng(r.randrange(1 << 30))
        rows, st = [], []
        for nm in names:
            p = xyz[r.randrange(len(xyz))]
            lo, la, z = self.inv.transform(*p)
            rows.append(dict(Network="VQ", Name=nm, Longitude=lo, Latitude=la, Elevation=z))
            tts = []
            for ph in self.phases:
                t = rng.integers(0, 4 << 16, len(xyz)) / 65536.0
                with open(f"{d}/layer.{ph}.{nm}.time.hdr", "w") as g:
                    g.write(f"{n[0]} {n[1]} {n[2]}  {o[0]} {o[1]} {o[2]}  {sp[0]} {sp[1]} {sp[2]} "
                            f"TIME FLOAT\n{nm} {p[0]} {p[1]} {p[2]}\n{line}\n")
                t.astype("<f4").tofile(f"{d}/layer.{ph}.{nm}.time.buf")
                tts.append(np.rint(t * 1e6).astype(int).tolist())
            self.src.append(dict(base=1, v=[1] * len(self.phases), xyz=[0, 0, 0], tt=tts))
            st.append([nm, len(self.src)])
        self.h.append(read_nlloc(d, pd.DataFrame(rows), phases=list(self.phases),
                                 fraction_tt=self.frac))
        self.base.append(0)
        self.ev.append(dict(e="nll", base=1, st=st))
        self.tags |= {"nll", "nll-" + kind}

    # ---- observing ------------------------------------------------------------------
    def place(self, b, geo):
        """1-based nodes of base grid b at those coordinates, 0 where there is none."""
        g = self.grids[b]["geo"]
        out = []
        for p in np.atleast_2d(geo):
            d = np.abs(g - p)
            ok = np.flatnonzero((d[:, 0] < 2e-7) & (d[:, 1] < 2e-7) & (d[:, 2] < 2e-5 * self.f))
            out.append(int(ok[0]) + 1 if len(ok) == 1 else 0)
        return out

    def place_xyz(self, b, xyz):
        g = self.grids[b]["xyz"]
        out = []
        for p in np.atleast_2d(xyz):
            ok = np.flatnonzero((np.abs(g - p) < 2e-5 * self.f).all(1))
            out.append(int(ok[0]) + 1 if len(ok) == 1 else 0)
        return out

    def look(self, h):
        t, b = self.h[h], self.base[h]
        mm = 1e6 / self.f
        N = int(np.prod(t.node_count))
        c = t.grid_corners
        geo = t.index2coord(np.arange(N), unravel=True)
        ijk = t.index2coord(geo, inverse=True)
        xyz = np.stack([a.reshape(-1) for a in t.grid_xyz], -1)
        e0, e1 = t.grid_extent
        x0, x1 = t.get_grid_extent(cells=True)
        # sign of the cell extents about the node extents, with their size checked in z
        q0 = np.array(self.fwd.transform(*x0)) - np.array(self.fwd.transform(*e0))
        q1 = np.array(self.fwd.transform(*x1)) - np.array(self.fwd.transform(*e1))
        half = t.node_spacing / 2
        cells = [int(round(float(a))) for a in np.r_[q0 / half, q1 / half]]
        if np.abs(np.r_[q0 / half, q1 / half] - cells).max() > 1e-3:
            cells = [9] * 6
        names = list(t.traveltimes.keys())
        tt = []
        for nm in names:
            s = t.serve_traveltimes(1000000, {f"{nm}_{p}": 1 for p in self.phases})
            assert s.shape[:-1] == tuple(t.node_count), "table shape is not the node count"
            tt.append([s[..., i].reshape(-1).tolist() for i in range(len(self.phases))])
        self.ev.append(dict(
            e="look", h=h + 1, n=[int(x) for x in t.node_count],
            sp=[int(round(x * mm)) for x in t.node_spacing],
            c0=[int(round(x * mm)) for x in c[0]], c1=[int(round(x * mm)) for x in c[-1]],
            corners=self.place_xyz(b, c), ext=self.place(b, e0) + self.place(b, e1), cells=cells,
            place=self.place(b, geo), xyz=self.place_xyz(b, xyz),
            back=[int(np.ravel_multi_index(tuple(i), tuple(t.node_count))) + 1
                  if (i >= 0).all() and (i < t.node_count).all() else 0 for i in ijk],
            stn=names, data=list(t.station_data["Name"]) if len(t.station_data) else [],
            frac=int(round(t.fraction_tt * 1000)), phases=list(t.phases), tt=tt,
            max=int(round(float(t.max_traveltime) * 1e6))))

    def serve(self, h):
        r, t = self.r, self.h[h]
        names = list(t.station_data["Name"])
        cols = [(nm, p) for nm in names for p in self.phases]
        r.shuffle(cols)
        ask = [c for c in cols if r.random() < 0.7] or cols[:1]
        sr = r.choice([50, 100, 250, 20, 1])
        s = t.serve_traveltimes(sr, {f"{n}_{p}": int((n, p) in ask) for n, p in cols})
        self.ev.append(dict(e="serve", h=h + 1, sr=sr,
                            ask=[[n, self.phases.index(p) + 1] for n, p in cols if (n, p) in ask],
                            out=[s[..., i].reshape(-1).tolist() for i in range(s.shape[-1])]))
        if len(ask) < len(cols):
            self.tags.add("partial")

    def point(self, h):
        r, t = self.r, self.h[h]
        n = [int(x) for x in t.node_count]
        if min(n) < 2:
            return
        q = [r.randint(0, 4 * (m - 1)) for m in n]
        if r.random() < 0.2:
            q = [4 * (m - 1) for m in n]
        names = list(t.station_data["Name"])
        k = r.randrange(3)
        if k == 0:
            ask, arg = names, None
        elif k == 1:
            ask = [r.choice(names)]
            arg = ask[0]
        else:
            ask = r.sample(names, r.randint(1, len(names)))
            arg = list(ask)
        ph = r.randrange(len(self.phases))
        out = t.traveltime_to(self.phases[ph], np.array(q) / 4, station=arg)
        self.ev.append(dict(e="point", h=h + 1, at=q, ph=ph + 1, ask=ask,
                            out=[int(round(float(x) * 1e6)) for x in np.atleast_1d(out)]))
        self.tags.add("point")

    def missing(self, h):
        t = self.h[h]
        nm = list(t.traveltimes.keys())[0]
        for what in (lambda: t.serve_traveltimes(50, {"ZZZ_" + self.phases[0]: 1}),
                     lambda: t.serve_traveltimes(50, {nm + "_X": 1}),
                     lambda: t.traveltime_to(self.phases[0], [0, 0, 0], station="ZZZ"),
                     lambda: t.traveltime_to("X", [0, 0, 0], station=nm)):
            try:
                what()
                raised = False
            except Exception:
                raised = True
            self.ev.append(dict(e="missing", h=h + 1, raised=raised))

    def look_all(self):
        for h in range(len(self.h)):
            self.look(h)

    # ---- operations -----------------------------------------------------------------
    def dec(self, h, inplace):
        r = self.r
        n = [int(x) for x in self.h[h].node_count]
        df = [r.randint(1, max(1, min(4, m))) for m in n]
        arg = df if r.random() < 0.5 else tuple(df)
        res = self.h[h].decimate(arg, inplace=inplace)
        if inplace:
            assert res is None
            h2 = h
        else:
            self.h.append(res)
            self.base.append(self.base[h])
            h2 = len(self.h) - 1
        self.ev.append(dict(e="dec", h=h + 1, h2=h2 + 1, df=df))
        self.tags.add("in-place" if inplace else "decimated")
        off = [(m - d * ((m - 1) // d) - 1) // 2 for m, d in zip(n, df)]
        if any(off):
            self.tags.add("offset")

    def load(self, h, route):
        from quakemigrate.io import read_lut
        from quakemigrate.lut import LUT
        p = os.path.join(self.wd, "d", f"t{len(self.ev)}.LUT")
        self.h[h].save(p)
        if route == 0:
            t = read_lut(p)
        elif route == 1:
            t = LUT(lut_file=p)
        else:
            t = LUT()
            t.load(p)
        self.h.append(t)
        self.base.append(self.base[h])
        self.ev.append(dict(e="load", h=h + 1))
        self.tags.add(f"load-{('read_lut', 'constructor', 'method')[route]}")

    def old(self, h):
        """The same table in a file of the old style: used as it is, then converted."""
        import pickle
        from quakemigrate.io import read_lut
        from quakemigrate.lut import LUT, update_lut
        t = self.h[h]
        d = dict(t.__dict__)
        d["maps"] = {s: {f"TIME_{p}": x for p, x in m.items()} for s, m in d.pop("traveltimes").items()}
        d["_cell_count"], d["_cell_size"] = d.pop("_node_count"), d.pop("_node_spacing")
        if self.r.random() < 0.5:
            del d["phases"], d["fraction_tt"]
        p, q = [os.path.join(self.wd, "d", f"{x}{len(self.ev)}.LUT") for x in "on"]
        os.makedirs(os.path.join(self.wd, "d"), exist_ok=True)
        with open(p, "wb") as out:
            pickle.dump(d, out, 4)
        self.h[h] = read_lut(p) if self.r.random() < 0.5 else LUT(lut_file=p)
        self.serve(h)
        self.point(h)
        self.h[h] = t
        update_lut(p, q)
        self.h.append(read_lut(q))
        self.base.append(self.base[h])
        self.ev.append(dict(e="load", h=h + 1))
        self.tags.add("old-style")

    def copy(self, h):
        self.h.append(copy.deepcopy(self.h[h]))
        self.base.append(self.base[h])
        self.ev.append(dict(e="copy", h=h + 1))

    def add(self, a, b):
        t = self.h[a] + self.h[b]
        got = t is not None
        self.ev.append(dict(e="add", a=a + 1, b=b + 1, got=got))
        if got:
            self.h.append(t)
            self.base.append(self.base[a])
            self.tags.add("added")
            if set(self.h[a].traveltimes) & set(self.h[b].traveltimes):
                self.tags.add("added-overlap")
        else:
            self.tags.add("refused")

    def equal(self, a, b):
        # the same table of stations does not matter to equality, the grid does
        self.ev.append(dict(e="equal", a=a + 1, b=b + 1, res=bool(self.h[a] == self.h[b])))

    def case(self, key):
        return dict(key=key, phases=self.phases, frac=int(round(self.frac * 1000)),
                    grid=[dict(n=g["n"], sp=g["sp"], ll=g["ll"]) for g in self.grids],
                    src=self.src, ev=self.ev, note=dict(tags=sorted(self.tags)))


def run(job, wd):
    H = Hist(job, wd)
    r = H.r
    names = r.sample(NAMES, r.randint(1, 3))
    mode = job["mode"]
    if mode == "nll":
        H.tags.clear()
        H.nll(names)
        mode = "serve"
    else:
        H.new(0, names)
    if job["mode"] in ("ops", "serve"):
        H.new(0, r.sample(NAMES, r.randint(1, 3)))
        H.new(1, r.sample(NAMES, r.randint(1, 2)))
    H.look_all()
    for _ in range(job["ops"]):
        h = r.randrange(len(H.h))
        k = r.randrange(10)
        if mode == "grid":
            H.dec(h, r.random() < 0.3)
        elif mode == "serve":
            if k < 4:
                H.dec(h, r.random() < 0.5)
            elif k < 7 and list(H.phases) == ["P", "S"] and H.frac == 0.1:
                H.old(h)
            else:
                H.load(h, r.randrange(3))
            h = r.randrange(len(H.h))
            for _ in range(2):
                H.serve(h)
                H.point(h)
        else:
            if k < 3:
                H.load(h, r.randrange(3))
            elif k < 5:
                H.dec(h, r.random() < 0.4)
            elif k < 6:
                H.copy(h)
            else:
                H.add(h, r.randrange(len(H.h)))
            for _ in range(3):
                H.equal(r.randrange(len(H.h)), r.randrange(len(H.h)))
        H.look_all()
    if mode == "serve":
        for h in range(len(H.h)):
            H.missing(h)
    return [H.case(job["mode"])]
