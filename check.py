#!/usr/bin/env python3
"""check.py <property>            run the check of a property (tier: VERIF_TIER, seed: VERIF_SEED)
check.py --replay <file>         re-run a recorded violation against /repo
check.py --setup                 build everything once, run the specification's self tests

A check model-checks the specification (spec/MC*.tla), lets TLC generate scenarios from it
(spec/Gen*.tla) and the driver generate more, executes all of them against the library in
/repo, and has TLC validate the recorded traces against the specification (spec/Trace*.tla)."""
import collections, itertools, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, "build")
TOOLS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8
REPO = os.environ.get("VERIF_REPO", "/repo")  # set only to try the checks on a changed copy
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"

from config import PROPS  # noqa: E402


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def go_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    for kv in out.split(b"\0"):
        k, _, v = kv.decode("utf8", "replace").partition("=")
        if k.startswith("GO") or k in ("PATH", "HOME", "CGO_ENABLED"):
            env[k] = v
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    return env


def build(work):
    """Java operators and driver, the driver from /repo's working tree."""
    classes = os.path.join(work, "classes")
    os.makedirs(classes)
    src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java"))) if f.endswith(".java")]
    mod = os.path.join(work, "go.mod")
    with open(mod, "w") as f:
        f.write(open(os.path.join(HERE, "driver", "go.mod")).read().replace("/repo", REPO))
    sums = {l for p in (REPO + "/go.sum", os.path.join(HERE, "driver", "go.sum")) for l in open(p) if l.strip()}
    with open(os.path.join(work, "go.sum"), "w") as f:
        f.writelines(sorted(sums))
    driver = os.path.join(work, "driver")
    with ThreadPoolExecutor(2) as ex:
        j = ex.submit(subprocess.run, ["javac", "-nowarn", "-cp", TOOLS, "-d", classes] + src,
                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        g = ex.submit(build_driver, mod, driver)
    for what, r in (("javac", j.result()), ("go build", g.result())):
        if r.returncode:
            raise CheckError(what + " failed:\n" + r.stdout)
    return classes, driver


def build_driver(mod, driver, *args):
    return subprocess.run(["go", "build", *args, "-modfile", mod, "-o", driver, "."], cwd=os.path.join(HERE, "driver"),
                          env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


class Tlc:
    def __init__(self, work, classes):
        self.work, self.classes, self.n = work, classes, itertools.count(1)

    def run(self, module, cfg=None, env=None, args=(), timeout=3000, workers=CORES, heap="6g"):
        meta = os.path.join(self.work, "meta%d" % next(self.n))
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Djava.io.tmpdir=" + self.work, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss64m", "-Xmx" + heap,
               "-cp", TOOLS + ":" + self.classes, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
               "-workers", str(workers), "-config", os.path.join(SPEC, cfg or module + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, env=e, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
            pass
        gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
        return {"rc": r.returncode, "out": out, "generated": gen, "distinct": dist, "wall": time.time() - t}


def tail(out, n=40):
    keep = [l for l in out.splitlines() if not re.match(r"(Loading|Parsing|Semantic|Linting)", l)]
    return "\n".join(l[:600] for l in keep[-n:])


def execute(driver, scenarios, work, shards):
    """Runs the scenarios (json lines) and returns the trace lines, in order."""
    shards = max(1, min(shards, len(scenarios)))
    parts = [scenarios[k::shards] for k in range(shards)]

    def one(k):
        todo, done, env = parts[k], [], go_env()
        env["TMPDIR"] = os.path.join(work, "tmp")
        env["GORACE"] = "halt_on_error=1"  # a data race ends the process, if the driver is built to notice one
        os.makedirs(env["TMPDIR"], exist_ok=True)
        while todo:
            p = os.path.join(work, "in%d.json" % k)
            with open(p, "w") as f:
                f.write("\n".join(todo) + "\n")
            r = subprocess.run([driver, "exec", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=1800)
            lines = r.stdout.decode().split("\n")
            if lines and lines[-1]:
                lines.pop()  # an incomplete line
            lines = [l for l in lines if l]
            done += lines
            todo = todo[len(lines):]
            if todo:  # the process died in the next scenario
                if r.returncode == 0:
                    raise CheckError("driver stopped early")
                if b"driver:" in r.stderr:
                    raise CheckError("driver failed: " + r.stderr.decode(errors="replace")[-2000:])
                log("driver died:", r.stderr.decode(errors="replace")[-600:])
                sc = json.loads(todo[0])
                how = "race" if b"DATA RACE" in r.stderr or b"fatal error: concurrent" in r.stderr else "dead"
                done.append(json.dumps(dict({k: v for k, v in sc.items() if k not in ("ops", "groups")}, ev=[{"op": "dead", "r": how}])))
                todo = todo[1:]
        return done

    with ThreadPoolExecutor(shards) as ex:
        outs = list(ex.map(one, range(shards)))
    res = [None] * len(scenarios)
    for k, o in enumerate(outs):
        res[k::shards] = o
    return res


def execute_all(driver, cfg, scen, work):
    """Executes the scenarios; those of goroutines also with the race detector, for all different traces."""
    lines = execute(driver, scen, work, cfg.get("shards", CORES))
    if not cfg.get("race"):
        return lines
    if not os.path.exists(driver + "-race"):
        r = build_driver(os.path.join(work, "go.mod"), driver + "-race", "-race")
        if r.returncode:
            raise CheckError("go build -race failed:\n" + r.stdout)
    for k, l in enumerate(execute(driver + "-race", scen, work, cfg.get("shards", CORES))):
        a, b = json.loads(lines[k]), json.loads(l)
        if "traces" in a and "traces" in b:
            a["traces"] += [t for t in b["traces"] if t not in a["traces"]]
            lines[k] = json.dumps(a)
        elif "traces" in a or (b["ev"] and b["ev"][-1]["r"] in ("dead", "race")):
            lines[k] = l
    return lines


def validate(tlc, prop, cfg, traces, work, name="trace", workers=CORES):
    """TLC over the recorded traces. Returns (bad events, stats)."""
    p = os.path.join(work, name + ".ndjson")
    with open(p, "w") as f:
        f.write("\n".join(traces) + "\n")
    r = tlc.run(cfg["trace"], "Trace.cfg", {"TRACE": p, "PROP": prop}, workers=workers)
    if r["rc"] != 0 or "Model checking completed. No error" not in r["out"]:
        if "java.lang.OutOfMemory" in r["out"] or "evaluat" not in r["out"]:
            raise CheckError("trace validation failed to run:\n" + tail(r["out"]))
        # a trace that is none of the specification's: find it
        if len(traces) == 1:
            t = json.loads(traces[0])
            log("cannot be evaluated:\n" + tail(r["out"], 12))
            return [{"id": t["id"], "ev": len(t["ev"]), "op": t["ev"][-1]["op"], "why": ["the trace is outside of the specification's domain"]}], r
        bad, h = [], len(traces) // 2
        for part in (traces[:h], traces[h:]):
            if len(bad) < 4:
                b, r2 = validate(tlc, prop, cfg, part, work, name, workers)
                bad += b
                r = r2
        return bad, r
    events = sum(len(json.loads(t)["ev"]) for t in traces)
    if r["generated"] != events + len(traces):
        raise CheckError("trace validation covered %d states of %d" % (r["generated"], events + len(traces)))
    bad = []
    for l in r["out"].splitlines():
        m = re.match(r'"?BAD (.*?)"?$', l)
        if m:
            bad.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    os.remove(p)
    return bad, r


def judge(tlc, prop, cfg, lines, work, name="trace"):
    """Validation of all traces, in batches that fit TLC's memory. Returns (bad events, states, transitions)."""
    jobs = []  # (module, property, traces)
    if "areas" not in cfg:
        jobs.append((cfg["trace"], prop, lines))
    else:  # traces of several kinds, those of a par scenario one by one
        by = collections.defaultdict(list)
        for l in lines:
            t = json.loads(l)
            if t["area"] != "par":
                by[t["area"]].append(l)
            elif "traces" not in t:  # died
                by["tx"].append(json.dumps({"id": t["id"], "area": "tx", "metas": [], "ev": t["ev"]}))
            for x in t.get("traces", []):
                by[x["area"]].append(json.dumps(dict(x, id=1000 * (1000 + t["id"]) + x["run"])))
        for area, (module, props) in cfg["areas"].items():
            jobs += [(module, p, by[area]) for p in props if by[area]]
    parts = []
    for module, p, ls in jobs:
        batch, size = [], 0
        for i, l in enumerate(ls):
            batch.append(l)
            size += len(l)
            if size > 60_000_000 or i == len(ls) - 1:
                parts.append((module, p, batch))
                batch, size = [], 0
    many = "areas" in cfg

    def one(k):
        module, p, batch = parts[k]
        b, r = validate(tlc, p, {"trace": module}, batch, work, "%s%d" % (name, k), 2 if many else CORES)
        log("validated %d traces, %d states, %.1fs, %d bad" % (len(batch), r["distinct"], r["wall"], len(b)))
        return b, r["distinct"], r["generated"]

    with ThreadPoolExecutor(4 if many else 1) as ex:
        res = list(ex.map(one, range(len(parts))))
    bad = sum((x[0] for x in res), [])
    for b in bad:
        if b["id"] >= 1000000 and many:
            b["id"], b["run"] = divmod(b["id"] - 1000000, 1000)
    return bad, sum(x[1] for x in res), sum(x[2] for x in res)


def alone(tlc, prop, cfg, driver, sc, bad, work):
    """The bad events of a par scenario that are not bad when each of its runs is executed without the others."""
    if sc["area"] == "par":
        parts, k = {}, 0
        for g in sc["groups"]:
            for r in g["runs"]:
                parts[k] = dict(sc, groups=[dict(g, runs=[r])])
                k += 1
        want = sorted({b["run"] for b in bad if "run" in b}) or sorted(parts)
        parts = [parts[k] for k in want]
    else:
        want, parts = [None], [dict(sc, ops=[dict(o, serial=True) if o["op"] == "par" else o for o in sc["ops"]])]
    also = set()
    for k, p in zip(want, parts):
        b2, _s, _t = judge(tlc, prop, cfg, execute(driver, [json.dumps(p)], work, 1), work, "alone")
        also |= {(k, b["ev"]) for b in b2} | {(None, 1) for b in b2 if b["op"] == "dead"}
    return [b for b in bad if (b.get("run"), b["ev"]) not in also]


def gen_tlc(tlc, g, scale):
    """Scenarios TLC generates from the specification."""
    args = []
    if g.get("simulate"):
        args = ["-simulate", "num=%d" % (g["simulate"] * scale), "-depth", str(g["depth"]), "-seed", str(SEED)]
    env = {"SEED": str(SEED), "SCALE": str(scale)}
    env.update(g.get("env", {}))
    cfg = g.get("cfg")
    if THOROUGH:
        cfg = g.get("thorough", cfg)
    r = tlc.run(g["module"], cfg, env=env, args=args, workers=1 if g.get("simulate") else CORES)
    if r["rc"] != 0 or "Error:" in r["out"]:
        raise CheckError("scenario generation failed: %s\n%s" % (g["module"], tail(r["out"])))
    out = []
    for l in r["out"].splitlines():
        m = re.match(r'"?SCEN (.*?)"?$', l)
        if m:
            out.append(m.group(1).replace('\\"', '"'))
    if not out:
        raise CheckError("no scenarios from " + g["module"])
    return sorted(set(out)), r


def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) why=\"([^\"]*)\" scenario=(\{.*\}) what=(.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), json.loads(m.group(3)), m.group(4)))
    return out


def same_scenario(a, b):
    strip = lambda s: {k: v for k, v in s.items() if k != "id"}
    return strip(a) == strip(b)


def scenarios(prop, cfg, tlc, driver, scale):
    """All scenarios of a check (json lines, numbered), how many come from where, and what TLC explored."""
    scen, sources, gs = [], {}, {}
    for g in cfg.get("gen", []):
        lines, r = gen_tlc(tlc, g, scale)
        if g.get("expand"):
            x = subprocess.run([driver, "expand", prop, str(SEED)], input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=go_env())
            if x.returncode:
                raise CheckError("driver expand failed: " + x.stderr.decode()[-2000:])
            lines = x.stdout.decode().splitlines()
        scen += lines
        sources[g.get("cfg", g["module"])] = len(lines)
        gs["%s (scenarios)" % g.get("cfg", g["module"])] = {"distinct_states": r["distinct"], "transitions": r["generated"], "wall_s": round(r["wall"], 1)}
        log("gen %s: %d scenarios, %.1fs" % (g["module"], len(lines), r["wall"]))
    for sd in [SEED] if not THOROUGH else [SEED, SEED + 1000003]:
        r = subprocess.run([driver, "gen", prop, str(sd), str(scale)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=go_env())
        if r.returncode:
            raise CheckError("driver gen failed: " + r.stderr.decode()[-2000:])
        lines = r.stdout.decode().splitlines()
        scen += lines
        sources["driver"] = sources.get("driver", 0) + len(lines)
    fixed = os.path.join(HERE, "corpus", prop + ".jsonl")
    if os.path.exists(fixed):
        lines = open(fixed).read().splitlines()
        scen += lines
        sources["corpus"] = len(lines)
    return [json.dumps(dict(json.loads(l), id=i + 1)) for i, l in enumerate(scen)], sources, gs


def run_check(prop):
    t0 = time.time()
    cfg = PROPS[prop]
    scale = cfg.get("thorough", 10) if THOROUGH else 1
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    cov = collections.OrderedDict()
    violations = []
    try:
        classes, driver = build(work)
        log("built in %.1fs" % (time.time() - t0))
        tlc = Tlc(work, classes)
        states = transitions = 0
        mcs = {}
        # 1. the specification itself
        for mc in cfg.get("mc", []) if not os.environ.get("VERIF_NOMC") else []:
            cfgs = mc["cfg"] if not THOROUGH else mc.get("thorough", mc["cfg"])
            r = tlc.run(mc["module"], cfgs, env={"SCALE": str(scale)})
            if r["rc"] != 0 or "No error has been found" not in r["out"]:
                raise CheckError("model checking %s failed:\n%s" % (cfgs, tail(r["out"])))
            mcs[cfgs] = {"distinct_states": r["distinct"], "transitions": r["generated"], "wall_s": round(r["wall"], 1)}
            states += r["distinct"]
            transitions += r["generated"]
            log("mc %s: %d states, %.1fs" % (cfgs, r["distinct"], r["wall"]))
        # 2. scenarios
        scen, sources, gs = scenarios(prop, cfg, tlc, driver, scale)
        mcs.update(gs)
        states += sum(g["distinct_states"] for g in gs.values())
        transitions += sum(g["transitions"] for g in gs.values())
        # 3. execution, 4. validation, in batches that fit TLC's memory
        traces_n = events = 0
        ops = collections.Counter()
        outcomes = collections.Counter()
        samples = []
        tt = time.time()
        lines = execute_all(driver, cfg, scen, work)
        log("executed %d scenarios in %.1fs" % (len(scen), time.time() - tt))
        bad, vstates, vtrans = judge(tlc, prop, cfg, lines, work)
        for l in lines:
            t = json.loads(l)
            for x in t.get("traces", [t]):
                traces_n += 1
                for e in x["ev"]:
                    ops[e["op"]] += 1
                    outcomes["%s:%s" % (e["op"], e.get("r", "-"))] += 1
                    events += 1
            if len(samples) < 3 and len(l) < 4000:
                samples.append(t)
        if not samples:
            t = json.loads(lines[0])
            samples = [t.get("traces", [t])[0]["ev"][0]]
        # 5. confirmation and report
        byid = collections.OrderedDict()
        for b in bad:
            byid.setdefault(b["id"], []).append(b)
        kn = known(prop)
        printed = set()
        rep = os.path.join(HERE, "replays")
        checked = 0
        for sid in sorted(byid):
            bs = byid[sid]
            sc = json.loads(scen[sid - 1])
            hit = [k for k in kn if same_scenario(k[1], sc) and all(k[0] in b["why"] for b in bs)]
            if hit:
                if hit[0][2] not in printed:
                    print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]), flush=True)
                    printed.add(hit[0][2])
                continue
            checked += 1
            if checked > 8:
                continue
            again = []
            for _ in range(3):
                l2 = execute_all(driver, cfg, [scen[sid - 1]], work)
                again, _s, _t = judge(tlc, prop, cfg, l2, work, "confirm")
                if again:
                    break
            if "areas" in cfg:
                bs = alone(tlc, prop, cfg, driver, sc, bs, work)
                if not bs:
                    log("scenario %d: the same without other goroutines" % sid)
                    continue
            t = json.loads(lines[sid - 1])
            ev = {x["area"]: x["ev"] for x in t.get("traces", [])} or t["ev"]
            timing = isinstance(ev, list) and all(ev[b["ev"] - 1].get("r") in ("hang", "dead") for b in bs)
            if not again and timing:
                log("not reproduced (timing): scenario %d" % sid)
                continue
            os.makedirs(rep, exist_ok=True)
            path = os.path.join(rep, "%s-%d.json" % (prop, len(violations) + 1))
            first = bs[0]
            with open(path, "w") as f:
                json.dump({"property": prop, "why": first["why"], "event": first["ev"], "observed": ev[first["ev"] - 1] if isinstance(ev, list) else ev,
                           "reproduced": bool(again), "scenario": sc}, f)
            violations.append((path, first))
            if len(violations) >= 3:
                break
        cov["states"] = states + vstates
        cov["transitions"] = transitions + vtrans
        cov["traces_validated_against_impl"] = traces_n
        cov["events_validated"] = events
        cov["model_checked"] = mcs
        cov["trace_states"] = vstates
        cov["scenario_sources"] = sources
        cov["events_by_op"] = dict(ops)
        cov["outcomes"] = dict(outcomes)
        cov["samples"] = samples[:2]
        evid = {"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "model_checking",
                "coverage": cov, "assumptions": cfg.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evid, f, indent=1)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for path, b in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        print("  event %d (%s): %s" % (b["ev"], b["op"], "; ".join(sorted(b["why"]))), flush=True)
    if violations:
        return 1
    print("OK property=%s traces=%d events=%d states=%d wall=%.1fs" % (prop, traces_n, events, cov["states"], time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        classes, driver = build(work)
        tlc = Tlc(work, classes)
        for _ in range(3):
            lines = execute_all(driver, PROPS[prop], [json.dumps(d["scenario"])], work)
            bad, _, _ = judge(tlc, prop, PROPS[prop], lines, work)
            if bad:
                for b in bad:
                    print("event %d (%s): %s" % (b["ev"], b["op"], "; ".join(b["why"])))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("not reproduced")
    return 0


# faulty variants of the models: each has to violate the invariant named
NEGATIVE = [("BuilderHeap", "MCHeapNoKeys.cfg", {}, "Agree"), ("BuilderHeap", "MCHeapNoBuild.cfg", {}, "Agree"),
            ("AddrHeap", "AddrHeapNoIn.cfg", {}, "Stable"), ("AddrHeap", "AddrHeapNoOut.cfg", {}, "Stable"),
            ("NodeClient", "MCNode.cfg", {"VARIANT": "leak"}, "NoFileLeft"), ("NodeClient", "MCNode.cfg", {"VARIANT": "onepage"}, "AllRight"),
            ("NodeClient", "MCNode.cfg", {"VARIANT": "resubmit"}, "OneSubmission"), ("NodeClient", "MCNode.cfg", {"VARIANT": "swallow"}, "AllRight"),
            ("NodeClient", "MCNode.cfg", {"VARIANT": "partial"}, "AllRight"), ("NodeClient", "MCNode.cfg", {"VARIANT": "follow"}, "AllRight")]
NEGATIVE += [("Conc", "Conc%s.cfg" % c, {"VARIANT": v}, i) for v in ("scratch", "cache", "once") for c, i in (("Alone", "Alone"), ("Race", "RaceFree"))]
NEGATIVE += [("MCWallet", "MCWalletStale.cfg", {}, "Right")]


def setup():
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        classes, _ = build(work)
        for module, c, env, inv in NEGATIVE:
            r = Tlc(work, classes).run(module, c, env)
            if "Invariant %s is violated" % inv not in r["out"]:
                raise CheckError("%s %s does not violate %s:\n%s" % (c, env, inv, tail(r["out"])))
        # with the accelerators, and without them (the TLA+ definitions themselves)
        for drop in ([], [f for f in os.listdir(classes) if not f.startswith("Prim")]):
            for f in drop:
                os.remove(os.path.join(classes, f))
            r = Tlc(work, classes).run("SelfTest")
            if r["rc"] != 0 or "No error has been found" not in r["out"]:
                raise CheckError("self test failed:\n" + tail(r["out"]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("setup ok")
    return 0


def main():
    try:
        if sys.argv[1] == "--setup":
            return setup()
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return run_check(sys.argv[1])
    except CheckError as e:
        log("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
