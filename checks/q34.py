"""Q34: traveltime tables made from velocity models."""
import os
import random
import stat

import numpy as np
import pandas as pd

TRACE = "TravelTrace"
DESIGN = {"quick": [("TravelMC", "TravelMC.cfg")],
          "thorough": [("TravelMC", "TravelMC_T.cfg")]}
LEVEL = "model_checking"
RULE = ("compute_traveltimes with method '1dfmm' and '1dnlloc' on grids of 2-6 nodes a side in two "
        "projections, kilometres and metres, equal and unequal spacings, one to three stations on "
        "and between nodes and beside and below the grid, one to five layers, P and S. Vel2Grid "
        "and Grid2Time are stand-ins that record what they are told and write sections of random "
        "times, so every node's interpolation is seen; with and without keeping the grids, in "
        "directories that hold files already. Requests without model, velocity column, executables "
        "or with a failing one.")
TAGS = ("fmm", "nll", "km", "m", "on-nodes", "between-nodes", "below-grid", "retain", "refused",
        "blocks", "gradient", "other-files")
ASSUMPTIONS = ["the fast-marching solver (scikit-fmm) and NonLinLoc themselves are trusted",
               "layers are in order of depth and have distinct depths",
               "a station's nearest node is any node of least distance along the axes"]
CHUNK = 400

STANDIN = '''#!/usr/bin/python3 -IS
import os, random, struct, sys
here = os.path.dirname(os.path.abspath(__file__))
name = os.path.basename(__file__)
txt = open(sys.argv[1]).read()
if os.path.exists(os.path.join(here, "fail-" + name)):
    print("ERROR: cannot")
    sys.exit(0)
L = {}
for line in txt.splitlines():
    w = line.split()
    if w:
        L.setdefault(w[0], []).append(w[1:])
if name == "Vel2Grid":
    open(L["VGOUT"][0][0] + "." + L["VGTYPE"][0][0] + ".mod.hdr", "w").write("x")
    open(L["VGOUT"][0][0] + "." + L["VGTYPE"][0][0] + ".mod.buf", "w").write("x")
    sys.exit(0)
g = L["VGGRID"][0]
src = L["GTSRCE"][0]
mod, tim, ph = L["GTFILES"][0]
if not os.path.exists(mod + "." + ph + ".mod.buf"):
    print("ERROR: no model")
    sys.exit(0)
ny, nz = int(g[1]), int(g[2])
r = random.Random("%s %s %s" % (src[0], ph, open(os.path.join(here, "seed")).read()))
v = [[r.randrange(1001) for _ in range(nz)] for _ in range(ny)]
out = "%s.%s.%s.time" % (tim, ph, src[0])
open(out + ".buf", "wb").write(b"".join(struct.pack("f", x / 1000.0) for row in v for x in row))
open(out + ".hdr", "w").write("1 %d %d %s %s %s %s %s %s TIME2D FLOAT\\n%s %s %s %s\\nTRANSFORM  NONE\\n"
                             % (ny, nz, g[3], g[4], g[5], g[6], g[7], g[8], *src[:5:1][:1],
                                src[2], src[3], src[4]))
import json
open(os.path.join(here, "log"), "a").write(json.dumps(dict(
    ph=L["VGTYPE"][0][0], ph2=ph, st=src[0], xyz=[float(x) for x in src[2:5]],
    grid=[float(x) for x in g[1:9]], v=v,
    lay=[[float(x) for x in w] for w in L["LAYER"]])) + "\\n")
'''


def make(r):
    from pyproj import Proj, Transformer
    units = r.choice(["km", "m"])
    f = 1.0 if units == "km" else 1000.0
    lon, lat = r.choice([(-18.0, 64.0), (12.5, 42.0), (116.0, -8.0)])
    cp = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
    if r.random() < 0.5:
        gp = Proj(proj="lcc", lon_0=lon, lat_0=lat, lat_1=lat - 0.5, lat_2=lat + 0.5,
                  datum="WGS84", ellps="WGS84", units=units, no_defs=True)
    else:
        gp = Proj(proj="tmerc", lon_0=lon, lat_0=lat, datum="WGS84", ellps="WGS84", units=units,
                  no_defs=True)
    inv, fwd = Transformer.from_proj(gp, cp), Transformer.from_proj(cp, gp)
    n = [r.choice([2, 3, 4, 5, 6]) for _ in range(3)]
    while np.prod(n) > 80:
        n[r.randrange(3)] = r.choice([2, 3])
    sp = [r.choice([0.3, 0.5, 1.0]) for _ in range(3)] if r.random() < 0.4 else [r.choice(
        [0.3, 0.5, 1.0])] * 3
    ll = [r.choice([-0.5, 0.0, 0.3]), r.choice([-1.2, 0.0]), r.choice([-1.25, -0.5, 0.0, 0.2])]
    llg = np.array(ll) * f
    spg = np.array(sp) * f
    urg = llg + (np.array(n) - 1 - 1e-6) * spg
    ijk = np.stack(np.meshgrid(*[np.arange(m) for m in n], indexing="ij"), -1).reshape(-1, 3)
    spec = dict(ll_corner=inv.transform(*llg), ur_corner=inv.transform(*urg),
                node_spacing=[x * f for x in sp], grid_proj=gp, coord_proj=cp)
    return dict(units=units, f=f, n=n, sp=sp, ll=ll, ijk=ijk, spec=spec, inv=inv, fwd=fwd,
                km=np.array(ll) + ijk * np.array(sp))


def stations(r, w, inside, tags):
    rows, pos = [], []
    names = r.sample(["AA", "B1", "CCC", "D"], r.choice([1, 2, 3]))
    top = np.array(w["ll"]) + (np.array(w["n"]) - 1) * np.array(w["sp"])
    for nm in names:
        p = np.array(w["km"][r.randrange(len(w["km"]))])
        if r.random() < 0.4 and not inside:
            tags.add("on-nodes")
        else:
            tags.add("between-nodes")
            p = p + np.array([r.uniform(-0.45, 0.45) * s for s in w["sp"]])
            if inside:
                p = np.clip(p, np.array(w["ll"]) + 1e-3, top - 1e-3)
        if not inside and r.random() < 0.3:
            p[2] = r.choice([w["ll"][2] - 0.37, top[2] + 0.41])
            tags.add("below-grid")
        if not inside and r.random() < 0.3:
            p[0] += 1.7
        lo, la, z = w["inv"].transform(*(p * w["f"]))
        rows.append(dict(Network="VQ", Name=nm, Longitude=lo, Latitude=la, Elevation=z))
        pos.append(p)
    return pd.DataFrame(rows), pos


def model(r, w, phases):
    k = r.choice([1, 2, 3, 5])
    d = sorted(r.sample(range(-1500, 5000, 50), k))
    v = {"P": [r.randrange(2000, 7000, 10) for _ in d], "S": [r.randrange(1000, 3500, 10) for _ in d]}
    df = pd.DataFrame({"Depth": np.array(d) / 1000 * w["f"],
                       **{f"V{p.lower()}": np.array(v[p]) / 1000 * w["f"] for p in r.sample("PS", 2)
                          if p in phases or r.random() < 0.5}})
    if r.random() < 0.3:
        # as of a model of which lines were selected or sorted
        df.index = r.sample(range(2 * k), k)
    return df, {p: [dict(d=a, v=b) for a, b in zip(d, v[p])] for p in v}


def fmm(r, wd):
    import skfmm
    from quakemigrate.lut import compute_traveltimes
    w = make(r)
    tags = {"fmm", w["units"]}
    st, pos = stations(r, w, True, tags)
    phases = r.choice([["P", "S"], ["S", "P"], ["P"], ["S"]])
    df, lay = model(r, w, phases)
    t = compute_traveltimes(w["spec"], st, "1dfmm", phases=list(phases), vmod=df)
    zs = w["ll"][2] + np.arange(w["n"][2]) * w["sp"][2]
    ev = []
    for nm, p in zip(st["Name"], pos):
        d = [np.abs(w["ll"][a] + np.arange(w["n"][a]) * w["sp"][a] - p[a]) for a in range(3)]
        near = [[int(i) for i in np.flatnonzero(x < x.min() + 1e-6)] for x in d]
        src = [[a + 1, b + 1, c + 1] for a in near[0] for b in near[1] for c in near[2]][:8]
        for ph in phases:
            v = np.interp(zs, [x["d"] / 1000 for x in lay[ph]], [x["v"] / 1000 for x in lay[ph]])
            vel = np.broadcast_to(v, w["n"]).copy()
            ref = []
            for q in src:
                phi = -np.ones(w["n"])
                phi[tuple(np.array(q) - 1)] = 1.0
                ref.append(np.rint(np.asarray(skfmm.travel_time(phi, vel, dx=w["sp"])).ravel()
                                   * 1e5).astype(int).tolist())
            got = np.asarray(t.traveltimes[nm][ph])
            ev.append(dict(e="fmm", st=nm, ph=ph, lay=lay[ph], n=w["n"],
                           h=[int(round(x * 1000)) for x in w["sp"]],
                           zs=[int(round(x * 1000)) for x in zs], src=src, ref=ref,
                           t=np.rint(got.ravel() * 1e5).astype(int).tolist()))
    return ev, tags


def tree(d, skip):
    out = []
    for root, dirs, files in os.walk(d):
        rel = os.path.relpath(root, d)
        dirs[:] = [x for x in dirs if os.path.join(rel, x) not in (f"./{skip}",)
                   and not (rel == "." and x == "logs")]
        out += [os.path.normpath(os.path.join(rel, x)) for x in files]
        if rel != "." and not files and not dirs:
            out.append(os.path.normpath(rel) + "/")
    return sorted(out)


def standins(bindir, seed, fail=None):
    os.makedirs(bindir)
    for x in ("Vel2Grid", "Grid2Time"):
        p = os.path.join(bindir, x)
        open(p, "w").write(STANDIN)
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
    open(os.path.join(bindir, "seed"), "w").write(str(seed))
    if fail:
        open(os.path.join(bindir, "fail-" + fail), "w").close()


def nll(r, wd):
    import json
    from quakemigrate.lut import compute_traveltimes
    w = make(r)
    tags = {"nll", w["units"]}
    st, pos = stations(r, w, False, tags)
    phases = r.choice([["P", "S"], ["S", "P"], ["P"], ["S"]])
    df, lay = model(r, w, phases)
    blocks, retain = r.random() < 0.4, r.random() < 0.3
    dx = r.choice([0.1, 0.1, 0.2, 0.25, 0.5])
    bindir = os.path.join(wd, "bin")
    standins(bindir, r.randrange(1 << 30))
    if r.random() < 0.4:
        tags.add("other-files")
        for p in r.sample(["model/mine.txt", "time/other.txt", "notes.txt",
                           "time/layer.P.ZZZ.time.hdr"], 2):
            os.makedirs(os.path.dirname(os.path.join(wd, p)) or wd, exist_ok=True)
            open(os.path.join(wd, p), "w").write("x")
    before = tree(wd, "bin")
    kw = dict(nlloc_path=bindir, nlloc_dx=dx)
    if blocks or r.random() < 0.5:
        kw["block_model"] = blocks
    if retain or r.random() < 0.5:
        kw["retain_nll_grids"] = retain
    if dx == 0.1 and r.random() < 0.5:
        del kw["nlloc_dx"]
    t = compute_traveltimes(w["spec"], st, "1dnlloc", phases=list(phases), vmod=df, **kw)
    tags.add("blocks" if blocks else "gradient")
    told = {(x["st"], x["ph2"]): x for x in map(json.loads, open(os.path.join(bindir, "log")))}
    ev = []
    dm = int(round(dx * 1000))
    top = w["km"][:, 2].max()
    for nm, p in zip(st["Name"], pos):
        hd = np.hypot(w["km"][:, 0] - p[0], w["km"][:, 1] - p[1])
        for ph in phases:
            x = told[nm, ph]
            z0 = x["grid"][4]
            got = np.asarray(t.traveltimes[nm][ph])
            assert got.shape == tuple(w["n"])
            ev.append(dict(
                e="nll", st=nm, ph=ph, lay=lay[ph], blocks=blocks, dx=dm,
                xyz=[int(round(c * 1000)) for c in p],
                told=dict(ph=x["ph"], st=x["st"], xyz=[int(round(c * 1000)) for c in x["xyz"]],
                          z0=int(round(z0 * 1000)), dx=int(round(x["grid"][6] * 1000)),
                          lay=[dict(d=int(round(q[0] * 1000)), v=int(round(q[1] * 1000)),
                                    g=int(round(q[2] * 1e5))) for q in x["lay"]]),
                lo=int(round(1000 * min(w["km"][:, 2].min(), p[2]))),
                hi=int(round(1000 * max(top, p[2]))), far=int(round(1000 * hd.max())), g=x["v"],
                nodes=np.c_[np.rint(hd / dx * 1000), np.rint((w["km"][:, 2] - z0) / dx * 1000),
                            np.rint(got.ravel() * 1e6)].astype(int).tolist()))
    made = [f"time/layer.{ph}.{nm}.time.{x}" for ph in phases for nm in st["Name"]
            for x in ("hdr", "buf")]
    ev.append(dict(e="left", before=before, after=tree(wd, "bin"), retain=retain, made=made))
    tags.add("retain" if retain else "tidied")
    return ev, tags


def refused(r, wd):
    from quakemigrate.lut import compute_traveltimes
    w = make(r)
    ev = []
    st, pos = stations(r, w, True, set())
    df, _ = model(r, w, ["P", "S"])
    bindir = os.path.join(wd, "bin")
    standins(bindir, 1)
    far = st.copy()
    lo, la, z = w["inv"].transform(*(np.array([w["ll"][0] - 2.0, pos[0][1], pos[0][2]]) * w["f"]))
    far.loc[0, ["Longitude", "Latitude"]] = lo, la
    deep = st.copy()
    deep.loc[0, "Elevation"] += 100.0 * w["f"]
    noS = df[["Depth", "Vp"]]
    bad = os.path.join(wd, "nowhere")
    half = os.path.join(wd, "half")
    os.makedirs(half)
    open(os.path.join(half, "Vel2Grid"), "w").close()
    fails = []
    for x in ("Vel2Grid", "Grid2Time"):
        b = os.path.join(wd, "f" + x)
        standins(b, 1, x)
        fails.append((dict(method="1dnlloc", vmod=df, nlloc_path=b), []))
    for kw, want in [(dict(method="1dfmm"), ["TypeError"]), (dict(method="1dnlloc"), ["TypeError"]),
                     (dict(method="homogeneous", vp=5.0), ["TypeError"]),
                     (dict(method="3dfmm", vmod=df), ["NotImplementedError"]),
                     (dict(method="fmm", vmod=df), ["ValueError"]),
                     (dict(method="1dfmm", vmod=noS), ["InvalidVelocityModelHeader"]),
                     (dict(method="1dnlloc", vmod=noS, nlloc_path=bindir), []),
                     (dict(method="1dfmm", vmod=df, far=far), ["ValueError"]),
                     (dict(method="1dfmm", vmod=df, far=deep), ["ValueError"]),
                     (dict(method="1dnlloc", vmod=df, nlloc_path=bad), ["FileNotFoundError"]),
                     (dict(method="1dnlloc", vmod=df, nlloc_path=half), ["FileNotFoundError"]),
                     *fails]:
        kw = dict(kw)
        s = kw.pop("far", st)
        raised = ""
        try:
            compute_traveltimes(w["spec"], s, phases=["P", "S"], **kw)
        except Exception as x:
            raised = type(x).__name__
        ev.append(dict(e="refused", what=kw["method"], raised=raised, want=want))
    return ev, {"refused"}


def run(job, wd):
    r = random.Random(job["seed"])
    ev, tags = dict(fmm=fmm, nll=nll, refused=refused)[job["kind"]](r, wd)
    return [dict(key=f"{job['kind']}-{job['seed']}", ev=ev, note=dict(tags=sorted(tags)))]


def jobs(tier, seed, gens):
    r = random.Random(1000 * seed + 34)
    m = 1 if tier == "quick" else 6
    out = [dict(kind="refused", seed=r.randrange(1 << 30)) for _ in range(4 * m)]
    out += [dict(kind="fmm", seed=r.randrange(1 << 30)) for _ in range(150 * m)]
    out += [dict(kind="nll", seed=r.randrange(1 << 30)) for _ in range(150 * m)]
    return out
