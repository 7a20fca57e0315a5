#!/usr/bin/env python3
"""automutate.py dump              scenarios of all checks and what the unchanged tree does on them, into $MUT (/tmp/mut)
automutate.py run FILE...          every small change (tools/gomut) to the files of /repo: is it seen?
Changes are applied with go's -overlay; /repo is not touched. A change is 'caught' when a trace it produces
is rejected by the trace specification of a property, 'seen' when traces differ but none is rejected,
'same' when no trace differs; those two are reported with whether the existing tests notice them."""
import hashlib, json, os, random, subprocess, sys, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from config import PROPS
MUT = os.environ.get("MUT", "/tmp/mut")
J = int(os.environ.get("J", "7"))
AREA = [("address/", "C01 C02 C03 C04 C05 C06 C07"), ("internal/bech32", "C02 C03"), ("network/", "C01 C02 C06"), ("bip32/", "C16 C17 C18"),
        ("crypto/edwards", "C20"), ("crypto/", "C16 C19"), ("tx/", "C08 C09 C10 C11 C12 C13 C14 C15"), ("fees/", "C13 C12 C11"), ("protocol/", "C21"),
        ("node/", "C22 C23 C24 C25")]


def norm(prop, line):
    return line


def execute(driver, prop, work, shards):
    """trace lines for the dumped scenarios; None when it takes too long"""
    sc = os.path.join(MUT, prop + ".scen")
    env = dict(ENV, TMPDIR=work)
    try:
        r = subprocess.run([driver, "exec", sc], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
    except subprocess.TimeoutExpired:
        return None
    return r.stdout.decode().splitlines()


def dump():
    os.makedirs(MUT, exist_ok=True)
    work = tempfile.mkdtemp()
    classes, driver = check.build(work)
    tlc = check.Tlc(work, classes)
    for p in sys.argv[2:] or PROPS:
        lines, _, _ = check.scenarios(p, PROPS[p], tlc, driver, 1)
        lim = int(os.environ.get("LIM", "0"))
        open(os.path.join(MUT, p + ".scen"), "w").write("\n".join(lines) + "\n")
        a = execute(driver, p, work, 1)
        t = time.time()
        b = execute(driver, p, work, 1)
        unstable = [i for i in range(len(a)) if a[i] != b[i]]
        open(os.path.join(MUT, p + ".base"), "w").write("\n".join(a) + "\n")
        json.dump(unstable, open(os.path.join(MUT, p + ".unstable"), "w"))
        print(p, len(lines), "scenarios", len(unstable), "unstable", "%.1fs" % (time.time() - t), flush=True)
    shutil.rmtree(work)


def go(args, cwd, t=300):
    try:
        r = subprocess.run(["go"] + args, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def one(job):
    f, n, m, props = job
    work = tempfile.mkdtemp(prefix="am")
    try:
        src = open(os.path.join("/repo", f), "rb").read()
        mf = os.path.join(work, "m.go")
        open(mf, "wb").write(src[:m["s"]] + m["t"].encode() + src[m["e"]:])
        ov = os.path.join(work, "ov.json")
        json.dump({"Replace": {os.path.join("/repo", f): mf}}, open(ov, "w"))
        mod = os.path.join(work, "go.mod")
        shutil.copy(os.path.join(check.HERE, "driver", "go.mod"), mod)
        shutil.copy(os.path.join(MUT, "go.sum"), os.path.join(work, "go.sum"))
        driver = os.path.join(work, "driver")
        rc, out = go(["build", "-overlay", ov, "-modfile", mod, "-o", driver, "."], os.path.join(check.HERE, "driver"))
        if rc:
            return dict(m, f=f, n=n, res="nobuild")
        changed = {}
        for p in props:
            got = execute(driver, p, work, 1)
            if got is None:
                changed[p] = ["HANG"]
                break
            base = BASE[p]
            if len(got) < len(base):
                changed[p] = ["DEAD"]
                break
            ch = [got[i] for i in range(len(base)) if i not in UNST[p] and got[i] != base[i]]
            if ch:
                random.Random(n).shuffle(ch)
                changed[p] = sorted(ch[:60], key=len)[:8]
        return dict(m, f=f, n=n, res="changed" if changed else "same", changed=changed, ov=None)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tests(m):
    work = tempfile.mkdtemp(prefix="am")
    try:
        src = open(os.path.join("/repo", m["f"]), "rb").read()
        mf = os.path.join(work, "m.go")
        open(mf, "wb").write(src[:m["s"]] + m["t"].encode() + src[m["e"]:])
        ov = os.path.join(work, "ov.json")
        json.dump({"Replace": {os.path.join("/repo", m["f"]): mf}}, open(ov, "w"))
        rc, out = go(["test", "-overlay", ov, "./..."], "/repo", 200)
        bad = [l for l in out.splitlines() if l.startswith("--- FAIL") or l.startswith("panic")]
        return bad
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(files):
    work = tempfile.mkdtemp()
    classes, driver = check.build(work)
    sums = {l for p in ("/repo/go.sum", os.path.join(check.HERE, "driver", "go.sum")) for l in open(p) if l.strip()}
    open(os.path.join(MUT, "go.sum"), "w").writelines(sorted(sums))
    jobs = []
    lim = int(os.environ.get("LIMIT", "0"))
    for f in files:
        props = next(ps for a, ps in AREA if f.startswith(a)).split()
        for p in props:
            if p not in BASE:
                BASE[p] = open(os.path.join(MUT, p + ".base")).read().splitlines()
                UNST[p] = set(json.load(open(os.path.join(MUT, p + ".unstable"))))
        ms = [json.loads(l) for l in subprocess.run(["/tmp/gomut", "/repo/" + f], stdout=subprocess.PIPE).stdout.decode().splitlines()]
        ms = list(enumerate(ms))
        if lim and len(ms) > lim:
            ms = random.Random(7).sample(ms, lim)
        jobs += [(f, n, m, props) for n, m in ms]
    res = []
    t = time.time()
    with ThreadPoolExecutor(J) as ex:
        for r in ex.map(one, jobs):
            res.append(r)
            if len(res) % 50 == 0:
                print("  %d/%d %.0fs" % (len(res), len(jobs), time.time() - t), file=sys.stderr, flush=True)
    # which changed traces does the specification reject?
    tlc = check.Tlc(work, classes)
    byprop = {}
    for k, r in enumerate(res):
        r["caught"] = {}
        for p, ls in r.get("changed", {}).items():
            for l in ls:
                if l in ("HANG", "DEAD"):
                    r["caught"][p] = l
                else:
                    byprop.setdefault(p, []).append((k, l))
    for p, kl in byprop.items():
        for c in range(0, len(kl), 4000):
            part = kl[c:c + 4000]
            lines = [json.dumps(dict(json.loads(l), id=j + 1)) for j, (_, l) in enumerate(part)]
            try:
                bad, _ = check.validate(tlc, p, PROPS[p], lines, work)
            except check.CheckError as e:
                bad = []
                for j in range(len(lines)):  # one by one: a trace the specification cannot even read
                    try:
                        b, _ = check.validate(tlc, p, PROPS[p], [lines[j]], work)
                        bad += b
                    except check.CheckError as e2:
                        print("SPEC ERROR", p, res[part[j][0]]["f"], res[part[j][0]]["l"], res[part[j][0]]["d"], str(e2)[-400:], flush=True)
                        res[part[j][0]]["caught"][p] = "SPECERROR"
            for b in bad:
                res[part[b["id"] - 1][0]]["caught"][p] = "; ".join(b["why"])
    left = [r for r in res if r["res"] != "nobuild" and not r["caught"]]
    with ThreadPoolExecutor(J) as ex:
        for r, tst in zip(left, ex.map(tests, left)):
            r["tests"] = tst
    tot = len([r for r in res if r["res"] != "nobuild"])
    print("%s: %d changes compile, %d caught, %d left (%d of them noticed by the existing tests)" % (" ".join(files), tot, tot - len(left), len(left), len([r for r in left if r["tests"]])))
    for r in left:
        if not r["tests"]:
            print("%s %s:%d [%s] %r -> %r %s" % ("SEEN" if r["res"] == "changed" else "SAME", r["f"], r["l"], r["d"], r["o"][:90], r["t"][:90], ",".join(r.get("changed", {}))))
    out = os.path.join(MUT, "res-" + files[0].replace("/", "_") + ".json")
    for r in res:
        r.pop("changed", None)
    json.dump(res, open(out, "w"))
    shutil.rmtree(work)


ENV = check.go_env()
BASE, UNST = {}, {}
if sys.argv[1] == "dump":
    dump()
else:
    run(sys.argv[2:])
