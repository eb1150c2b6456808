#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by seeded simulation. See DESIGN.md."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("VERIF_OUT", HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import simbuild
from simconf import CONF, ASSUME, REAL, STUB

WORKERS = 8
CHUNK = 200000


def parse_out(path):
    d = {"count": {}}
    if not os.path.exists(path):
        return None
    for l in open(path, errors="replace"):
        k = l.rstrip("\n").split(" ", 2)
        if k[0] == "count":
            d["count"][k[1]] = int(k[2])
        elif k[0] == "vcls" or k[0] == "vmsg":
            d[k[0]] = l.rstrip("\n")[5:]
        else:
            d[k[0]] = int(k[1])
    return d


def read_sets(path, acc, cov):
    b = open(path, "rb").read()
    o = 0
    for s in acc:
        n, = struct.unpack_from("<Q", b, o)
        o += 8
        s.update(struct.unpack_from("<%dQ" % n, b, o))
        o += 8 * n
    for i, v in enumerate(b[o:o + 65536]):
        if v:
            cov.add(i)


def sim(exe, args, timeout=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e, timeout=timeout)


def replay(exe, path):
    """(class, hash, msg); class 'OK' when the property holds on that trace."""
    p = sim(exe, ["replay", path])
    m = re.search(r"result class=(\S+) hash=(\S+) msg=(.*)", p.stdout)
    return (m.group(1), m.group(2), m.group(3)) if m else ("ERROR", "", p.stderr[-300:])


def crash_report(exe, path):
    p = sim(exe, ["replay", path, "--direct", "1"])
    t = p.stderr
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|SIM-[A-Z]+[^\n]*)", t)
    loc = re.findall(r"#\d+ \S+ in (\S+) (\S+)", t)
    loc = [a + " " + b for a, b in loc if "/src/" in b][:3]
    return (m.group(1) if m else "exit %d" % p.returncode) + " at " + " < ".join(loc)


def known_findings(prop):
    """[(class, message regex, text)] of recorded, unrepaired findings of this property."""
    r = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)", l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3), m.group(4)))
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    conf = CONF[prop]
    t0 = time.time()
    print("check property=%s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    out = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
    os.makedirs(out, exist_ok=True)
    try:
        exe0 = simbuild.build(out, conf.get("flavour", ""))
    except simbuild.BuildError as e:
        print("the simulator does not build against the current tree:\n%s" % e)
        return 2
    tmp = tempfile.mkdtemp(prefix="simrun.")
    try:
        exe = os.path.join(tmp, "sim")
        shutil.copy2(exe0, exe)
        return explore(prop, tier, seed, conf, exe, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(prop, tier, seed, conf, exe, tmp, t0):
    runs = conf["runs"] if tier == "quick" else conf["runs"] * 1000
    wall = 150 if tier == "quick" else float(os.environ.get("VERIF_WALL", "600"))
    ti = "1" if tier == "thorough" else "0"
    t1 = time.time()
    procs = []
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0"
    known = known_findings(prop)
    todo = [(w, w) for w in range(WORKERS)]       # (worker, first index)
    agg = {"runs": 0, "events": 0, "sim_us": 0, "nontrivial": 0, "checks": 0, "rechecks": 0}
    counts = {}
    sets = [set(), set(), set()]
    cov = set()
    cand = []                                     # (index, class, msg, stderr)
    deadline = t1 + wall
    running = []
    n = 0
    stop_at = None
    while todo or running:
        while todo:
            w, first = todo.pop()
            left = deadline - time.time()
            if first >= runs or left < 1 or (stop_at is not None and time.time() > stop_at):
                continue
            n += 1
            b = os.path.join(tmp, "w%d" % n)
            p = subprocess.Popen([exe, "batch", "--prop", prop, "--seed", str(seed), "--tier", ti, "--from", str(first), "--step", str(WORKERS),
                                  "--to", str(runs), "--wall", str(int(left)), "--recheck", "50", "--progress", b + ".p", "--out", b + ".o", "--sets", b + ".s"],
                                 stdout=subprocess.DEVNULL, stderr=open(b + ".e", "w"), env=env)
            running.append((p, b, w, first))
        time.sleep(0.02)
        for x in list(running):
            p, b, w, first = x
            if p.poll() is None:
                if stop_at is not None and time.time() > stop_at + 20:
                    p.kill()
                continue
            running.remove(x)
            d = parse_out(b + ".o")
            if d is None or "rc" not in d:
                if p.returncode == -9:
                    continue
                idx = struct.unpack("<Q", open(b + ".p", "rb").read(8).ljust(8, b"\0"))[0]
                cand.append((idx, "HANG" if p.returncode == 77 else "CRASH", "exit %d" % p.returncode, w, first))
            else:
                for k in agg:
                    agg[k] += d.get(k, 0)
                for k, v in d["count"].items():
                    counts[k] = counts.get(k, 0) + v
                if os.path.exists(b + ".s"):
                    read_sets(b + ".s", sets, cov)
                if d["rc"] == 1:
                    cand.append((d["vindex"], d.get("vcls", "?"), d.get("vmsg", ""), w, first))
                else:
                    continue
            idx, cls, msg = cand[-1][:3]
            k = [f for f in known if f[0] == cls and re.search(f[1], msg)]
            if k:                                  # a recorded finding: go on behind it
                cand.pop()
                counts["known_finding_hits"] = counts.get("known_finding_hits", 0) + 1
                todo.append((w, idx + WORKERS))
            elif stop_at is None:
                stop_at = time.time() + 3
                for q in running:
                    pass
        if stop_at is not None and time.time() > stop_at:
            for q in running:
                q[0].kill()
    t2 = time.time()
    viol = 0
    notes = []
    rc = 0
    if cand:
        for idx, cls, msg, w, first in sorted(cand):
            path = report(prop, seed, ti, exe, tmp, idx, cls, w, first, notes)
            if path:
                viol += 1
                rc = 1
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                break
        if not viol:
            notes.append("%d candidate violation(s) did not reproduce from a fresh process and were not reported" % len(cand))
            print("WARNING: " + notes[-1])
            if conf.get("strict_repro", True):
                rc = 2
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f[2]))
    samples = []
    for i in (0, 1):
        t = sim(exe, ["gen", "--prop", prop, "--seed", str(seed), "--tier", ti, "--index", str(i)]).stdout
        samples.append(t if len(t) < 2500 else t[:2500] + "... (%d bytes)" % len(t))
    secs = max(t2 - t1, 0.001)
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(counts.items()) if ":" not in k or k.startswith("foreign")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": conf["level"],
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(sets[2]),
            "rule": conf["rule"],
            "samples": samples,
            "simulated_runs": agg["runs"],
            "seeds_per_hour": int(agg["runs"] / secs * 3600),
            "simulated_events": agg["events"],
            "simulated_time_s": round(agg["sim_us"] / 1e6, 3),
            "oracle_checks": agg["checks"],
            "runs_executed_twice_and_compared": agg["rechecks"],
            "fault_kinds_injected": faults,
            "probes": probes,
            "other_counts": other,
            "distinct_abstract_states": len(sets[0]),
            "distinct_interleavings": len(sets[1]),
            "interleaving_measure": "hash of the order of actors' actions and the sizes of their payloads in one run",
            "state_measure": conf.get("state_measure", "hash of modes, cursor/margin relation, scrollback fill, parser and charset state of the reference model"),
            "code_blocks_covered": len(cov),
            "components_real": conf.get("real", REAL), "components_stubbed": conf.get("stub", STUB),
        },
        "assumptions": conf.get("assume", []) + ASSUME + notes,
        "wall_s": round(time.time() - t0, 2),
        "violations": viol,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs, %d checks, %d distinct non-trivial cases, %.1f s: %s" % (prop, agg["runs"], agg["checks"], len(sets[2]), time.time() - t0, "violated" if viol else "held"))
    return rc


def report(prop, seed, ti, exe, tmp, idx, cls, w, first, notes):
    """Gate, minimise and store one candidate; returns the replay path or None."""
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    raw = os.path.join(tmp, "raw")
    open(raw, "w").write(sim(exe, ["gen", "--prop", prop, "--seed", str(seed), "--tier", ti, "--index", str(idx)]).stdout)
    a, b = replay(exe, raw), replay(exe, raw)
    path = os.path.join(rdir, "%s-seed%d-%d.trace" % (prop, seed, idx))
    if a[0] in ("OK", "ERROR") or a[:2] != b[:2]:
        # Not a function of the trace alone: state was carried over from earlier
        # runs in the same process. Replay the shortest series that shows it.
        k = 1
        while k < 5000:
            lo = max(first, idx - k * WORKERS)
            args = ["batch", "--prop", prop, "--seed", str(seed), "--tier", ti, "--from", str(lo), "--step", str(WORKERS), "--to", str(idx + 1), "--recheck", "50"]
            bad = []
            for _ in range(2):
                try:
                    p = sim(exe, args, timeout=120)
                except subprocess.TimeoutExpired:
                    bad.append("timeout")
                    continue
                m = re.search(r"^vindex (\d+)$", p.stdout, re.M)
                bad.append((p.returncode, m.group(1) if m else ""))
            if bad[0] == bad[1] and bad[0] != "timeout" and bad[0][0] != 0:
                with open(path, "w") as f:
                    f.write("libtsm-sim-batch 1\n# state carried over between runs of one process; replay with:\n# %s\n" % " ".join(["build/sim"] + args))
                    f.write("args " + " ".join(args) + "\n")
                print("violation %s at index %d needs preceding runs in the same process" % (cls, idx))
                return path
            if lo == first:
                break
            k *= 4
        return None
    m = sim(exe, ["min", raw, "--budget", "40"])
    mp = os.path.join(tmp, "min")
    use = raw
    if m.returncode == 0 and m.stdout:
        open(mp, "w").write(m.stdout)
        c, d = replay(exe, mp), replay(exe, mp)
        if c[0] == a[0] and c[:2] == d[:2]:
            use, a = mp, c
    what = a[2] if a[0] not in ("CRASH", "HANG") else crash_report(exe, use)
    with open(path, "w") as f:
        f.write(open(use).read())
        f.write("# class %s\n# %s\n# replay: build/sim replay %s\n" % (a[0], what.replace("\n", " "), path))
    print("%s: %s" % (a[0], what))
    return path


if __name__ == "__main__":
    sys.exit(main())
