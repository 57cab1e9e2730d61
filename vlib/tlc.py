"""Running TLC: exhaustive model checking, behaviour generation, trace validation."""
import json
import os
import re
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")


class TLCError(Exception):
    """TLC could not do its job (parse error, crash, time-out): a machinery failure."""


def run(module, cfg, scratch, env=None, workers=4, extra=(), timeout=800, heap="4g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns (exit code, output)."""
    meta = os.path.join(scratch, f"tlc_{module}_{os.path.basename(cfg)}_{time.time_ns()}")
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", CP, "tlc2.TLC",
           "-config", cfg, "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final",
           "-workers", str(workers), *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError(f"TLC timed out on {module}/{cfg} after {timeout} s")
    return r.returncode, r.stdout + r.stderr


STATS = re.compile(r"(\d+) states generated.*?, (\d+) distinct states found")


def stats(out):
    m = None
    for m in STATS.finditer(out.replace(",", "", 0)):
        pass
    if m is None:
        return 0, 0
    return int(m.group(1)), int(m.group(2))


def model_check(module, cfg, scratch, workers=4, timeout=800, extra=()):
    """Exhaustive check of a design configuration. Returns a dict for the evidence."""
    t0 = time.time()
    rc, out = run(module, cfg, scratch, workers=workers, timeout=timeout,
                  extra=("-coverage", "1") + tuple(extra))
    gen, dist = stats(out)
    if rc != 0:
        raise TLCError(f"TLC rejects the design {module}/{cfg} (exit {rc}):\n{out[-6000:]}")
    # per-action counts of the last coverage report: <Action line.. of module X>: d:g
    acts = {}
    for m in re.finditer(r"<(\w+) line [^>]*of module (\w+)[^>]*>: (\d+):(\d+)", out):
        acts[f"{m.group(2)}!{m.group(1)}"] = int(m.group(4))
    return dict(module=module, config=cfg, states=dist, transitions=gen,
                actions=acts, wall_s=round(time.time() - t0, 2))


def generate(module, cfg, scratch, out_env="VQ_OUT", env=None, workers=1, timeout=800,
             extra=()):
    """Run a generator config; collects JSON lines printed as "VQ-GEN <json>"."""
    rc, out = run(module, cfg, scratch, env=env, workers=workers, timeout=timeout,
                  extra=extra)
    if rc != 0:
        raise TLCError(f"TLC failed to generate from {module}/{cfg} ({rc}):\n{out[-4000:]}")
    rows = []
    for line in out.splitlines():
        if line.startswith('"VQ-GEN '):
            s = json.loads(line)          # TLC prints strings with \" escapes
            rows.append(json.loads(s[len("VQ-GEN "):]))
    gen, dist = stats(out)
    return rows, dict(module=module, config=cfg, states=dist, transitions=gen,
                      generated=len(rows))


VERD = re.compile(r'^<<"VQ-(OK|BAD)", (\d+)(?:, (\d+), (.*))?>>$')


def validate(module, cases, scratch, tag, workers=8, timeout=800, heap="8g", cfg=None):
    """Validate recorded cases against a trace specification.

    Returns (verdicts, stats): verdicts[i] is None (accepted) or a dict(event, clauses).
    """
    path = os.path.join(scratch, f"trace_{tag}.ndjson")
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    rc, out = run(module, cfg or f"{module}.cfg", scratch, env={"VQ_TRACE": path},
                  workers=workers, timeout=timeout, heap=heap)
    verdicts = {}
    text = out.replace("\r", "")
    # PrintT may wrap long tuples over lines: join until balanced
    buf = ""
    for line in text.splitlines():
        if buf or line.startswith('<< "VQ-') or line.startswith('<<"VQ-'):
            buf += line.strip() + " "
            if buf.count("<<") == buf.count(">>"):
                m = re.match(r'^<<\s*"VQ-(OK|BAD)",\s*(\d+)(?:,\s*(\d+),\s*(.*?))?\s*>>\s*$',
                             buf.strip(), re.S)
                if m:
                    i = int(m.group(2)) - 1
                    verdicts[i] = None if m.group(1) == "OK" else dict(
                        event=int(m.group(3)),
                        clauses=re.findall(r'"([^"]*)"', m.group(4)))
                buf = ""
    gen, dist = stats(out)
    os.unlink(path)
    st = dict(module=module, states=dist, transitions=gen)
    return rc, out, verdicts, st
