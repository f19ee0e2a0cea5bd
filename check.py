#!/usr/bin/env python3
"""Decides one property: check.py <property>.

Rebuilds the harness from /repo's working tree, lets TLC check the models of
the property and write their behaviours as cases, replays the cases against
the real package, and lets TLC judge what was recorded there.

Exit 0: the property held on everything explored.  Exit 1: it is broken.  Any
other exit: the machinery failed (model error, build failure, dead process).
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, ASSUMPTIONS  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
# TLC swaps long state queues to disk and keeps only the low byte of characters there.
QUEUE = "-Dtlc2.tool.queue.DiskStateQueue.BufSize=1000000"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
CPUS = max(2, min(8, os.cpu_count() or 2))
LIMIT = 840 if TIER == "quick" else 3 * 3600
START = time.time()


class Failed(Exception):
    pass


def left():
    return max(5.0, LIMIT - (time.time() - START))


def run(cmd, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left(), **kw)
    except subprocess.TimeoutExpired:
        raise Failed("out of time: %s" % " ".join(cmd[:6]))


def build(scratch, race):
    d = os.path.join(scratch, "harness")
    shutil.copytree(os.path.join(HERE, "harness"), d)
    with open(os.path.join(d, "go.mod.in")) as f:
        mod = f.read().replace("@REPO@", REPO)
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write(mod)
    with open(os.path.join(d, "go.sum"), "w") as out:
        for p in (os.path.join(REPO, "go.sum"), "/opt/vp/parser.sum"):
            with open(p) as f:
                out.write(f.read())
    exe = os.path.join(scratch, "icsverif")
    flags = "-race " if race else ""
    env = "export CGO_ENABLED=1; " if race else ""
    r = run(["bash", "-c", ". /opt/vp/env.sh && %sGOFLAGS=-mod=mod go build %s-o %s ." % (env, flags, exe)], cwd=d)
    if r.returncode:
        raise Failed("the harness does not build against %s:\n%s" % (REPO, (r.stdout + r.stderr).decode(errors="replace")))
    return exe


class Model:
    """One run of TLC."""

    def __init__(self, scratch, name, part=0, parts=1, env=None, workers=2, heap="2g"):
        self.name, self.part, self.parts = name, part, parts
        self.scratch, self.env, self.workers, self.heap = scratch, env or {}, workers, heap
        self.cases = os.path.join(scratch, "cases.%s.%d" % (name, part))
        self.ncases = self.states = self.transitions = 0

    def run(self):
        meta = os.path.join(self.scratch, "meta.%s.%d" % (self.name, self.part))
        env = dict(os.environ, VERIF_SEED=str(abs(SEED)), VERIF_TIER=TIER, VERIF_PART=str(self.part),
                   VERIF_PARTS=str(self.parts), LC_ALL="C.UTF-8", **self.env)
        quick = ["-XX:TieredStopAtLevel=1"] if TIER == "quick" else []
        cmd = ["java"] + quick + ["-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseSerialGC", "-Xss16m", "-Xmx" + self.heap,
               "-Djava.io.tmpdir=" + self.scratch, QUEUE, "-cp", JARS, "tlc2.TLC", "-workers", str(self.workers), "-metadir", meta,
               "-deadlock", "-config", self.name + ".cfg", self.name.split("_")[0] + ".tla"]
        log = []
        done = False
        init = gen = dist = 0
        p = subprocess.Popen(cmd, cwd=os.path.join(self.scratch, "spec"), env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT)
        timer = __import__("threading").Timer(left(), p.kill)
        timer.start()
        try:
            with open(self.cases, "w", encoding="utf-8") as out:
                for raw in p.stdout:
                    line = raw.decode("utf-8", errors="replace")
                    if line.startswith('"@'):
                        out.write(json.loads(line)[1:] + "\n")
                        self.ncases += 1
                        continue
                    if line.startswith(("Parsing", "Semantic", "Linting", "Computed", "Progress")):
                        continue
                    log.append(line)
                    m = re.search(r"initial states: ([\d,]+) distinct state", line)
                    if m:
                        init = int(m.group(1).replace(",", ""))
                    m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", line)
                    if m:
                        gen, dist = (int(g.replace(",", "")) for g in m.groups())
                    done = done or "No error has been found" in line
            p.wait()
        finally:
            timer.cancel()
            if p.poll() is None:
                p.kill()
                p.wait()
        if p.returncode or not done:
            raise Failed("TLC failed on %s (exit %s):\n%s" % (self.name, p.returncode, "".join(log)[-4000:]))
        self.states, self.transitions = dist, max(0, gen - init)
        shutil.rmtree(meta, ignore_errors=True)
        return self


def replay(exe, scratch, schema, cases, modes, tz, tag, extra=(), race=False):
    """Runs the harness; returns its result, with crashes and hangs turned into violations."""
    out = os.path.join(scratch, "out.%s.json" % tag)
    trace = os.path.join(scratch, "trace.%s.ndjson" % tag)
    base = [exe, "-schema", schema, "-cases", ",".join(cases), "-modes", ",".join(modes), "-seed", str(SEED), "-tier", TIER,
            "-out", out, "-trace", trace]
    env = dict(os.environ, TZ=tz, GOTRACEBACK="single", GORACE="halt_on_error=1 exitcode=66")

    def once(more, name=out):
        if os.path.exists(name):
            os.remove(name)
        return run(base + list(extra) + list(more), env=env)

    def result():
        with open(out, encoding="utf-8") as f:
            return json.load(f)

    r = once([])
    if r.returncode == 0:
        return result(), trace
    err = r.stderr.decode(errors="replace")
    if "fatal error: concurrent map" in err:  # calls that run at the same time disturb each other
        if race:
            return {"violations": [{"mode": ",".join(modes), "detail": "concurrent use of a map:\n" + err[:6000], "index": -1, "case": None}],
                    "calls": 0, "cases": 0, "crash": True}, None
        r = once(["-workers", "1"])
        if r.returncode == 0:
            return result(), trace
        err = r.stderr.decode(errors="replace")
    if r.returncode == 3:  # a call that does not return
        res = result()
        stuck = res["stuck"]
        for s in stuck:
            again = once(["-only", str(s["index"]), "-limit", "60s" if len(stuck) == 1 else "30s"])
            if again.returncode == 3:
                s = result()["stuck"][0]
                s["detail"] = "confirmed in a second run: " + s["detail"]
                res["violations"] = (res.get("violations") or []) + [s]
                return res, None
        raise Failed("a call did not return, but did so when repeated: %s" % stuck[0]["detail"])
    if r.returncode == 66 or "DATA RACE" in err:
        return {"violations": [{"mode": ",".join(modes), "detail": "data race:\n" + err[:6000], "index": -1, "case": None}],
                "calls": 0, "cases": 0, "crash": True}, None
    fatal = re.search(r"(goroutine stack exceeds|stack overflow|concurrent map|all goroutines are asleep|"
                      r"panic: (?s:.*)vimagination\.zapto\.org/ics\.)", err)
    if fatal:  # the runtime gave up inside the code under test: find the case
        journal = os.path.join(scratch, "journal." + tag)
        again = once(["-journal", journal])
        if again.returncode not in (0, 3) and os.path.exists(journal):
            with open(journal) as f:
                idx = f.read().split()
            if idx:
                last = once(["-only", idx[-1]])
                e2 = last.stderr.decode(errors="replace")
                if last.returncode and fatal.group(1)[:30] in e2:
                    case = nth_case(cases, int(idx[-1]))
                    return {"violations": [{"mode": ",".join(modes), "detail": "the process died: " + e2[:3000],
                                            "index": int(idx[-1]), "case": case}], "calls": 0, "cases": 0, "crash": True}, None
    raise Failed("the harness failed (exit %d):\n%s" % (r.returncode, err[-4000:]))


def nth_case(files, n):
    for f in files:
        with open(f, encoding="utf-8") as fh:
            for line in fh:
                if n == 0:
                    return json.loads(line)
                n -= 1
    return None


def judge(scratch, trace, pool, tag):
    """Lets the specification judge recorded behaviour; returns (entries, bad entries, states)."""
    with open(trace, encoding="utf-8") as f:
        lines = [x for x in f.read().split("\n") if x]
    if not lines:
        return 0, [], 0, 0
    most = 15000 if TIER == "quick" else 300000
    if len(lines) > most:  # evenly spread
        lines = [lines[i * len(lines) // most] for i in range(most)]
    parts = max(1, min(CPUS, len(lines) // 50 + 1))
    models = []
    for i in range(parts):
        path = "%s.%d" % (trace, i)
        with open(path, "w", encoding="utf-8") as f:
            f.write("\n".join(lines[i::parts]) + "\n")
        models.append(Model(scratch, "MCJudge", part=(tag + 1) * 100 + i, env={"VERIF_TRACE": path}))
    bad, judged, states, trans = [], 0, 0, 0
    for m in pool.map(Model.run, models):
        states += m.states
        trans += m.transitions
        with open(m.cases, encoding="utf-8") as f:
            for line in f:
                v = json.loads(line)
                judged += 1
                if v["verdict"] != "ok":
                    bad.append(v)
    if judged != len(lines):
        raise Failed("%d of %d recorded entries were judged" % (judged, len(lines)))
    return judged, bad, states, trans


def known(prop):
    """Findings recorded in known-findings.txt: property and a pattern for the failing case."""
    found = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) note=(.*?) :: (.*)$", line.strip())
                if m and m.group(1) == prop:
                    found.append((m.group(2), m.group(3)))
    return found


def main():
    prop = sys.argv[1]
    conf = CHECKS[prop]
    scratch = tempfile.mkdtemp(prefix="icsverif-")
    try:
        return decide(prop, conf, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, conf, scratch):
    shutil.copytree(os.path.join(HERE, "spec"), os.path.join(scratch, "spec"))
    pool = cf.ThreadPoolExecutor(CPUS)
    built = cf.ThreadPoolExecutor(1).submit(build, scratch, conf.get("race", False))
    schema = Model(scratch, "MCSchema")
    models, groups = [], {}  # replayed together: the models with the same modes
    for name, parts, *modes in conf["models"]:
        ms = [Model(scratch, name, p, parts) for p in range(parts)]
        models += ms
        groups.setdefault(tuple(modes or conf["modes"]), []).extend(m.cases for m in ms)
    futures = [pool.submit(m.run) for m in [schema] + models]
    for f in cf.as_completed(futures):
        f.result()
    exe = built.result()
    if os.environ.get("VERIF_TIMES"):
        print("models after %.1fs" % (time.time() - START), file=sys.stderr)

    zones = conf.get("zones") or ["UTC"]
    # TZ must name a zone: an unknown one would silently mean UTC
    zones = [["America/New_York", "Asia/Kolkata", "Pacific/Auckland", "Europe/London"][abs(SEED) % 4] if z == "seed" else z for z in zones]
    violations, samples = [], []
    cases = calls = judged = matched = 0
    jstates = jtrans = 0
    outcomes, permode = {}, {}
    runs = [(tz, modes, files) for tz in zones for modes, files in groups.items()]
    if conf.get("split"):  # one process for each file, so that its calls come one after another
        runs = [(tz, modes, [f]) for tz, modes, files in runs for f in files]
    rpool = cf.ThreadPoolExecutor(CPUS if conf.get("split") else 1)
    replays = [rpool.submit(replay, exe, scratch, schema.cases, files, modes, tz, str(i), conf.get("args", ()), conf.get("race", False))
               for i, (tz, modes, files) in enumerate(runs)]
    for i, (tz, modes, files) in enumerate(runs):
        res, trace = replays[i].result()
        if os.environ.get("VERIF_TIMES"):
            print("%s after %.1fs" % (",".join(modes), time.time() - START), file=sys.stderr)
        violations += res.get("violations") or []
        samples += res.get("samples") or []
        cases += res.get("cases", 0)
        calls += res.get("calls", 0)
        matched += res.get("wire_matched", 0)
        for k, n in (res.get("outcomes") or {}).items():
            outcomes[k] = outcomes.get(k, 0) + n
        for k, n in (res.get("per_mode") or {}).items():
            permode[k] = permode.get(k, 0) + n
        if trace and os.path.exists(trace):
            n, bad, s, t = judge(scratch, trace, pool, i)
            judged += n
            jstates += s
            jtrans += t
            for b in bad:
                violations.append({"mode": "judge", "detail": b["verdict"], "index": b.get("i", -1), "case": b})
        if not res.get("cases") and not res.get("violations"):
            raise Failed("no case was replayed by %s" % ",".join(modes))

    listed = known(prop)
    fresh, seen = [], set()
    for v in violations:
        note = (v.get("case") or {}).get("note", "")
        hit = [k for k in listed if k[0] == note]
        if hit:
            seen.add(hit[0])
        else:
            fresh.append(v)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))

    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    for s in samples:
        for k in ("cal", "canon"):
            s.pop(k, None)
        if len(s.get("in", "")) > 1500:
            s["in"] = s["in"][:1500] + "..."
    coverage = {
        "states": sum(m.states for m in models) + jstates,
        "transitions": sum(m.transitions for m in models) + jtrans,
        "traces_validated_against_impl": cases + judged,
        "calls_of_real_code_per_mode": permode,
        "case_outcomes": outcomes,
        "models": sorted({m.name for m in models}),
        "samples": samples[:6],
        "exhaustive": bool(conf.get("exhaustive", False)),
    }
    if judged:
        coverage["of_these_recordings_judged_by_the_specification"] = judged
    if matched:
        coverage["outputs_equal_to_the_model"] = matched
    if not coverage["samples"]:
        coverage["samples"] = [{"violation": v["detail"][:500]} for v in violations[:1]]
    with open(os.path.join(ev, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": conf.get("level", "model_checking"),
                   "coverage": coverage, "assumptions": ASSUMPTIONS + conf.get("assumptions", []),
                   "wall_s": round(time.time() - START, 2), "violations": len(fresh)}, f, indent=1, ensure_ascii=False)
    if not fresh:
        print("OK property=%s states=%d cases=%d calls=%d judged=%d wall=%.1fs" %
              (prop, coverage["states"], cases, calls, judged, time.time() - START))
        return 0
    rd = os.path.join(ev, "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, prop + ".json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "seed": SEED, "tier": TIER, "zones": zones, "violations": fresh[:20]}, f, indent=1, ensure_ascii=False)
    for v in fresh[:3]:
        print("  [%s] %s -- %s" % (v["mode"], (v.get("case") or {}).get("note", ""), v["detail"][:600]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    try:
        code = main()
    except Failed as e:
        print("ERROR: %s" % e, file=sys.stderr)
        code = 2
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
