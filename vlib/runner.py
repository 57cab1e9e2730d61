"""Runs one check: design model checking, behaviour generation, driving the real code,
trace validation, known findings, evidence, verdict."""
import concurrent.futures as cf
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import stage, tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
NPROC = int(os.environ.get("VQ_PROCS", "8"))


def known_findings(prop):
    """Lines 'KNOWN-FINDING: property=<id> key=<case key> clause=<clause> :: <text>'."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING: "):
                head, text = line[len("KNOWN-FINDING: "):].strip().split(" :: ", 1)
                f = dict(kv.split("=", 1) for kv in head.split())
                if f["property"] == prop:
                    out[(f["key"], f["clause"])] = text
    return out


def drive(check, tier, seed, tree, scratch, jobs, total_limit):
    """Run the jobs in NPROC worker processes; a dying worker is an observation."""
    slices = [[] for _ in range(min(NPROC, max(1, len(jobs))))]
    for i, j in enumerate(jobs):
        slices[i % len(slices)].append((i, j))
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               NUMEXPR_NUM_THREADS="1", PROJ_NETWORK="OFF", PYTHONHASHSEED="0",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), VERIF_SEED=str(seed), HOME=scratch)
    results = {}
    t_end = time.time() + total_limit

    def run_slice(k):
        todo = slices[k]
        rnd = 0
        while todo:
            rnd += 1
            jf = os.path.join(scratch, f"jobs_{k}_{rnd}.json")
            of = os.path.join(scratch, f"out_{k}_{rnd}.ndjson")
            ef = open(os.path.join(scratch, f"err_{k}_{rnd}.txt"), "w")
            json.dump(todo, open(jf, "w"))
            open(of, "w").close()
            p = subprocess.Popen([PY, "-m", "vlib.worker", check, tier, str(seed), tree,
                                  scratch, jf, of], env=env, cwd=scratch,
                                 stdout=subprocess.DEVNULL, stderr=ef)
            hung = False
            try:
                rc = p.wait(timeout=max(5, t_end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                rc = p.wait()
                hung = True
            started, done = None, set()
            for line in open(of):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "start" in r:
                    started = r["start"]
                else:
                    done.add(r["done"])
                    results[r["done"]] = r["cases"]
            todo = [x for x in todo if x[0] not in done]
            if not todo:
                break
            if started is None or started in done:
                # died before or between jobs: machinery or import failure
                err = open(ef.name).read()[-1500:]
                if started is None and rnd == 1:
                    for x in todo:
                        results[x[0]] = [dict(key=f"job{x[0]}", job=x[1], ev=[dict(
                            e="exception", type="worker", msg=err, where=["import"])])]
                    break
                if rnd > len(slices[k]) + 2:
                    raise tlc.TLCError("workers keep dying: " + err)
                continue
            x = [t for t in todo if t[0] == started][0]
            results[started] = [dict(key=f"job{started}", job=x[1], ev=[dict(
                e="hang" if hung else "crash", what=f"worker ended with status {rc}")])]
            todo = [t for t in todo if t[0] != started]
            if hung:
                for t in todo:
                    results[t[0]] = []
                break

    with cf.ThreadPoolExecutor(len(slices)) as ex:
        list(ex.map(run_slice, range(len(slices))))
    return [c for i in sorted(results) for c in results[i]]


def strip(case):
    """What goes to TLC: everything but the driver's bookkeeping."""
    return {k: v for k, v in case.items() if k not in ("key", "job", "note")}


def validate_all(mod, cases, scratch, workers=8):
    """Group cases by trace module, validate; returns [(case, verdict)] and stats."""
    groups = {}
    for c in cases:
        m = c.get("module") or mod.TRACE
        groups.setdefault(m, []).append(c)
    results, sts = [], []
    for m, cs in groups.items():
        broken = [c for c in cs if any(e["e"] in ("exception", "crash", "hang")
                                       for e in c["ev"][-1:])]
        normal = [c for c in cs if c not in broken]
        for c in broken:
            e = c["ev"][-1]
            results.append((c, dict(event=len(c["ev"]),
                                    clauses=[f"no-{e['e']}"])))
        chunk = getattr(mod, "CHUNK", 4000)
        for b in range(0, len(normal), chunk):
            part = normal[b:b + chunk]
            got = run_part(m, part, scratch, workers, sts)
            for i, c in enumerate(part):
                results.append((c, got[i]))
    return results, sts


def run_part(m, part, scratch, workers, sts):
    """Validate; a record the specification cannot evaluate rejects its case."""
    verdict = {}
    todo = list(range(len(part)))
    for attempt in range(4):
        rc, out, got, st = tlc.validate(
            m, [strip(part[i]) for i in todo], scratch, f"{m}_{time.time_ns()}",
            workers=workers)
        sts.append(st)
        for j, v in got.items():
            verdict[todo[j]] = v
        if rc == 0 and len(got) == len(todo):
            return [verdict[i] for i in range(len(part))]
        hit = re.findall(r"^(?:/\\ )?c = (\d+)$", out, re.M)
        if os.environ.get("VQ_DEBUG"):
            print(out[-6000:])
        if rc == 0 or not hit or "*** Errors" in out or "OutOfMemory" in out:
            raise tlc.TLCError(f"trace validation of {m} failed (exit {rc}):\n{out[-5000:]}")
        i = todo[int(hit[-1]) - 1]
        verdict[i] = dict(event=0, clauses=["observation-not-evaluable"],
                          detail=out[-1500:])
        todo = [j for j in todo if j not in verdict]
    # several such cases already reject the run; the rest stays undecided
    return [verdict.get(i, dict(event=0, clauses=["observation-not-evaluable"]))
            for i in range(len(part))]


def main(argv):
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else "quick")
    replay = argv[3] if len(argv) > 3 and argv[2] == "--replay" else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    check = prop.lower()
    sys.path.insert(0, HERE)
    mod = importlib.import_module(f"checks.{check}")
    scratch = tempfile.mkdtemp(prefix=f"vq_{prop}_")
    try:
        return _main(mod, check, prop, tier, seed, replay, scratch, t0)
    finally:
        if os.environ.get("VQ_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def _main(mod, check, prop, tier, seed, replay, scratch, t0):
    tree = stage.stage(scratch)
    designs, gens = [], {}
    ex = cf.ThreadPoolExecutor(4)
    futs = []
    if not replay:
        for d in mod.DESIGN.get(tier, mod.DESIGN["quick"]):
            futs.append(ex.submit(tlc.model_check, d[0], d[1], scratch, 2, 850))
    gen_stats = []
    for name, g in (getattr(mod, "GENERATE", {}) or {}).items():
        cfg = g[1] if tier == "quick" or len(g) < 3 else g[2]
        rows, st = tlc.generate(g[0], cfg, scratch,
                                extra=tuple(a.replace("@SEED", str(seed)) for a in
                                            (g[3] if len(g) > 3 else ())))
        gens[name] = rows
        gen_stats.append(st)
    if replay:
        r = json.load(open(replay))
        jobs = [r["job"]]
    else:
        jobs = mod.jobs(tier, seed, gens)
    limit = 560 if tier == "quick" else 700
    cases = drive(check, tier, seed, tree, scratch, jobs, limit)
    t_d = time.time()
    results, vstats = validate_all(mod, cases, scratch)
    t_v = time.time()
    designs = [f.result() for f in futs]
    if os.environ.get('VQ_TIME'):
        print(f'drive {t_d - t0:.1f} validate {t_v - t_d:.1f} designs', [d['wall_s'] for d in designs], f'{time.time() - t0:.1f}')

    known = known_findings(prop)
    reported, violations = set(), []
    for c, v in results:
        if v is None:
            continue
        ks = [(c["key"], cl) for cl in v["clauses"]]
        if ks and all(k in known for k in ks):
            reported.update(ks)
        else:
            violations.append((c, v))
    for k in sorted(reported):
        print(f"KNOWN-FINDING: property={prop} key={k[0]} clause={k[1]} {known[k]}")

    rdir = os.path.join(HERE, "out", "replay")
    if violations:
        os.makedirs(rdir, exist_ok=True)
    shown = {}
    for c, v in violations:
        sig = tuple(v["clauses"])
        shown.setdefault(sig, []).append((c, v))
    for n, (sig, lst) in enumerate(sorted(shown.items(), key=lambda kv: -len(kv[1]))[:6]):
        c, v = lst[0]
        path = os.path.join(rdir, f"{prop}-{n}.json")
        json.dump(dict(property=prop, tier=tier, seed=seed, key=c["key"], verdict=v,
                       cases_failing_alike=len(lst), job=c.get("job"), case=strip(c),
                       how=f"bin/check {prop} {tier} --replay {path}"),
                  open(path, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={path} clauses={','.join(sig)} "
              f"key={c['key']} cases={len(lst)}")
        if c["ev"] and c["ev"][-1]["e"] in ("exception", "crash", "hang"):
            print("   ", json.dumps(c["ev"][-1])[:1500])

    tags, samples = {}, []
    nontrivial = set()
    for c, v in results:
        for t in c.get("note", {}).get("tags", ()):
            tags[t] = tags.get(t, 0) + 1
        nontrivial.add(json.dumps(strip(c), sort_keys=True))
    for c, v in results[:: max(1, len(results) // 3)][:3]:
        s = json.dumps(strip(c))
        samples.append(s if len(s) < 1500 else s[:1500] + "...")
    events = sum(len(c["ev"]) for c, _ in results)
    expect = set(getattr(mod, "TAGS", ()))
    missing = sorted(expect - set(tags))
    if missing and not violations and not replay:
        print(f"note: situations not exercised this run: {missing}")
    states = sum(d["states"] for d in designs) + sum(s["states"] for s in vstats)
    trans = sum(d["transitions"] for d in designs) + sum(s["transitions"] for s in vstats)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=mod.LEVEL,
        coverage=dict(
            states=states, transitions=trans,
            traces_validated_against_impl=len(results),
            events_validated_against_impl=events,
            distinct_nontrivial=len(nontrivial),
            rule=mod.RULE, design_runs=designs, generator_runs=gen_stats,
            trace_validation=dict(runs=len(vstats), states=sum(s["states"] for s in vstats)),
            situations=tags, situations_not_exercised=missing, samples=samples,
            known_findings_seen=[f"{a}:{b}" for a, b in sorted(reported)]),
        assumptions=list(getattr(mod, "ASSUMPTIONS", ())),
        wall_s=round(time.time() - t0, 1), violations=len(violations))
    if not replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(results)} traces, {events} events, {states} states, "
          f"{len(violations)} violating, {time.time() - t0:.1f} s")
    return 1 if violations else 0
