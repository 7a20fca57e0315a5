#!/usr/bin/env python3
"""mutate.py FILE [name...]: tries the checks on planted changes. FILE (Python) defines M: name -> (properties,
[(file, old, new), ...]). Every change is made in a scratch copy of /repo, built, run through the
existing tests and then through the checks of the properties named (VERIF_REPO)."""
import os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
M = ns["M"]
names = sys.argv[2:] or list(M)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = int(os.environ.get("J", "3"))

def sh(cmd, cwd, env=None, t=1200):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

def one(n):
    props, edits = M[n]
    d = "/tmp/mut-%s-%d" % (n, os.getpid())
    shutil.copytree("/repo", d, symlinks=True)
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            if s.count(old) < 1:
                return n, "NOMATCH " + f
            s = s.replace(old, new, 1)
            if crlf:
                s = s.replace("\n", "\r\n")
            open(p, "w", newline="").write(s)
        r = sh("go build ./... ; go test ./... 2>&1 | grep -v 'no test files' | grep -E '^(FAIL|---|panic|#|.*\\.go:[0-9]+)' | head", d)
        if r.stdout.strip():
            note = "TESTS: " + r.stdout.strip().replace("\n", " | ")[:300]
        else:
            note = ""
        env = dict(os.environ, VERIF_REPO=d, VERIF_NOMC="1")
        out = []
        for p in props.split():
            t = time.time()
            r = sh("python3 check.py " + p, HERE, env)
            why = [l.strip() for l in r.stdout.splitlines() if l.startswith("  event")][:1]
            out.append("%s %s %.0fs %s" % (p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR " + r.stdout[-300:]), time.time() - t, why[0][:120] if why else ""))
        return n, " ; ".join(out) + " " + note
    finally:
        shutil.rmtree(d, ignore_errors=True)

with ThreadPoolExecutor(J) as ex:
    for n, o in ex.map(one, names):
        print(n, "->", o, flush=True)
