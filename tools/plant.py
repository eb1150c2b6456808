"""Authoring and trying of planted bugs (development only; no check uses it).
  plant.py make FILE.py [ID...]   FILE defines P(id, prop, edits, demo, needs, breaks): writes seeded/ID/*
  plant.py try [-j N] [ID...]     in scratch copies: patch, build, tests, demo, and the property's quick check
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import simconf
S = R + "/seeded"
T = "/tmp/plant"
BASE = "0f03af7"
DEMO = '''#!/bin/bash
# exit 0: the property's demonstration passes on the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r -- "$t"' EXIT
I="-Isrc/tsm -Isrc/shared -Iexternal -Iexternal/wcwidth -Iexternal/xkbcommon"
cc -std=gnu99 -w -g -O1 %s$I -D_GNU_SOURCE -I"$d" -o "$t/demo" "$d/demo.c" src/tsm/*.c src/shared/*.c external/wcwidth/wcwidth.c %s|| exit 3
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0
timeout 60 "$t/demo"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def copy(name):
    d = "%s/%s" % (T, name)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(T, exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    return d


def make(f, ids):
    base = copy("mk")
    blame = {}

    def P(id, prop, edits, demo, needs, breaks, flags="", libs="", env=None):
        if ids and id not in ids:
            return
        sh("git checkout -q -- .", base)
        for path, old, new in edits:
            s = open(base + "/" + path).read()
            if s.count(old) != 1:
                print(id, "MISMATCH", s.count(old), repr(old))
                return
            if path not in blame:
                blame[path] = sh(["git", "blame", "-s", path], base).stdout.splitlines()
            n = s[:s.index(old)].count("\n")
            open(base + "/" + path, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=base, stdout=subprocess.PIPE, text=True).stdout
        path = None
        for l in diff.splitlines():
            m = re.match(r"--- a/(.*)", l)
            if m:
                path = m.group(1)
                continue
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m.group(1)); continue
            if l.startswith("-"):
                b = blame[path][n - 1]
                if not b.startswith("^" + BASE[:6]) and BASE[:6] not in b[:10]:
                    print(id, "NOTE changes own line:", b)
            if not l.startswith("+"):
                n += 1
        d = S + "/" + id
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % (flags + " " if flags else "", libs + " " if libs else ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.c", "w").write(demo.lstrip("\n"))
        for n in ("common", "gtk"):
            if '"%s.h"' % {"common": "common", "gtk": "demo_gtk"}[n] in demo:
                shutil.copy(R + "/tools/demo_%s.h" % n, d + ("/common.h" if n == "common" else "/demo_gtk.h"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        print(id, "written,", diff.count("\n"), "lines")
    exec(open(f).read(), {"P": P})


def attempt(id, w):
    d = S + "/" + id
    prop = json.load(open(d + "/meta.json"))["property"]
    r = "%s/w%d" % (T, w)
    res = {"id": id, "prop": prop}
    sh("git checkout -q -- . && git clean -fdq", r)
    dd = "%s/demo%d" % (T, w)
    if os.path.exists(dd):
        shutil.rmtree(dd)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    p = sh(["bash", dd + "/demo.sh"], r)
    res["demo0"] = p.returncode
    if p.returncode:
        res["out0"] = p.stdout[-600:]
    p = sh(["git", "apply", d + "/patch.diff"], r)
    if p.returncode:
        res["apply"] = p.stdout
        return res
    p = sh("cmake -S . -B _b -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DBUILD_GTKTSM=ON && ninja -C _b", r)
    res["build"] = p.returncode
    if p.returncode:
        res["blog"] = p.stdout[-800:]
        return res
    code = open("/opt/vp/run_check.py").read().replace("/repo/_build", r + "/_b").replace("/repo/", r + "/")
    open(r + ".rc.py", "w").write(code)
    sh(["python3", r + ".rc.py", r + ".res"])
    fails = [l for l in open(r + ".res").read().splitlines() if l.startswith("FAIL")]
    res["tests"] = fails
    p = sh(["bash", dd + "/demo.sh"], r)
    res["demo1"] = p.returncode
    res["out1"] = p.stdout[-300:]
    if os.environ.get("NOCHECK"):
        return res
    e = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=r + ".vb", VERIF_SEED="1", VERIF_TIER="quick", VERIF_OUT=r + ".ev")
    props = os.environ.get("PROPS", prop).split(",")
    for q in props:
        p = sh(["python3", R + "/check.py", q], R, env=e)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        m = re.search(r"^%s: (\d+) runs" % q, p.stdout, re.M)
        res["runs:" + q] = int(m.group(1)) / simconf.CONF[q]["runs"] if m else None
        res["check:" + q] = (p.returncode, len(v), (p.stdout.strip().splitlines() or [""])[-3:][0][:300])
    return res


def main():
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
        return
    a = sys.argv[2:]
    j = 2
    if a and a[0] == "-j":
        j = int(a[1])
        a = a[2:]
    ids = a or sorted(os.listdir(S))
    free = list(range(j))
    for w in free:
        copy("w%d" % w)
    bad = 0

    def one(id):
        w = free.pop()
        try:
            return attempt(id, w)
        finally:
            free.append(w)
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, ids):
            ok = r.get("demo0") == 0 and r.get("demo1", 0) != 0 and not r.get("tests") and r.get("build") == 0
            caught = r.get("check:" + r["prop"], (None,))[0]
            why = []
            for k in ("apply", "blog", "tests"):
                if r.get(k):
                    why.append("%s: %s" % (k, r[k]))
            if r.get("demo0") != 0:
                why.append("demo unpatched %s: %s" % (r.get("demo0"), r.get("out0")))
            if r.get("demo1", 0) == 0:
                why.append("demo does not notice: " + str(r.get("out1")))
            print("%-26s %-8s %s %s" % (r["id"], "valid" if ok else "INVALID", {0: "MISSED", 1: "caught"}.get(caught, "??" + str(caught)), "; ".join(why + ["%s=%s" % (k[6:], v[0]) + (" " + v[2][:110] if v[0] == 1 else "") for k, v in r.items() if k.startswith("check:")])), flush=True)
            if caught is not None:
                t = R + "/tools/plants/results.json"
                j0 = json.load(open(t)) if os.path.exists(t) else {}
                j0[r["id"]] = {"valid": ok, "caught": caught == 1, "class": r["check:" + r["prop"]][2].split(":")[0][:40], "share": r.get("runs:" + r["prop"])}
                json.dump(j0, open(t, "w"), indent=0, sort_keys=True)
    for w in range(j):
        shutil.rmtree("%s/w%d" % (T, w))


main()
