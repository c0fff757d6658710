#!/usr/bin/env python3
"""seed.py new ID PROP  : take the diff of the scratch worktree (/tmp/seedwt) plus /tmp/seedwt.demo.py into seeded/ID
seed.py confirm ID      : apply in a scratch copy, build, tests, demo with and without
seed.py catch ID [PROP] : run the quick check against the patched tree via VERIF_REPO
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def install(i):
    d = os.path.join(S, i)
    shutil.copy(os.path.join(V, "tools", "demo", "mini.py"), os.path.join(d, "mini.py"))
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


def confirm(i):
    """Uses /repo itself (build products there), always undoing the patch."""
    d = os.path.join(S, i)
    if sh("git -C /repo status --porcelain").stdout.strip():
        raise SystemExit("/repo not clean")
    res = {}
    r = sh("bash /opt/vp/build.sh")
    res["demo_clean"] = sh("timeout 300 sh %s/demo.sh" % d, cwd="/repo").returncode
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        raise SystemExit("apply: " + a.stdout)
    try:
        b = sh("bash /opt/vp/build.sh")
        res["build"] = b.returncode
        if b.returncode:
            print(b.stdout[-3000:])
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        j = json.load(open("/tmp/seedtest.json"))
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or j["passed"])
        res["failed"] = j["failed"]
        res["passed"] = len(j["passed"])
        p = sh("timeout 300 sh %s/demo.sh" % d, cwd="/repo")
        res["demo_patched"] = p.returncode
        res["out"] = p.stdout[-500:]
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    good = res["demo_clean"] == 0 and res["build"] == 0 and not res["failed"] and res["demo_patched"] not in (0, 124)
    print(i, "CONFIRMED" if good else "REJECTED", json.dumps(res))
    return good


def catch(i, prop=None):
    d = os.path.join(S, i)
    prop = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seedcatch.")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s" % w)
        a = sh("git apply %s/patch.diff" % d, cwd=w)
        if a.returncode:
            raise SystemExit("apply: " + a.stdout)
        b = os.path.join(w, "vbuild")
        sh("cp -a %s/build %s" % (V, b))
        # object files refer to sources by absolute path in the ninja file, which is rewritten
        e = dict(os.environ, VERIF_REPO=w, VERIF_BUILD=b)
        p = sh("python3 %s/run.py %s" % (V, prop), env=e)
        v = [l for l in p.stdout.split("\n") if l.startswith(("VIOLATION", "violated"))]
        print(i, prop, "CAUGHT" if p.returncode == 1 and any(l.startswith("VIOLATION") for l in v) else "MISSED rc=%d" % p.returncode)
        for l in v[:2]:
            print("   ", l[:600])
        if p.returncode not in (0, 1):
            print(p.stdout[-1500:])
        return p.returncode == 1
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "confirm":
        for i in sys.argv[2:]:
            install(i)
            confirm(i)
    elif c == "catch":
        for i in sys.argv[2:]:
            if ":" in i:
                catch(*i.split(":"))
            else:
                catch(i)
    elif c == "install":
        for i in sys.argv[2:]:
            install(i)
