#!/usr/bin/env python3
"""mutate.py OUTDIR [FILE...]: mutation survey. Makes one small source change at a time in copies of single
files of /repo/src, links each with the simulator and runs a short search of every property against it.
Mutants that nothing detects are listed in OUTDIR/survivors.txt for inspection (equivalent, or a blind spot).
Options by environment: JOBS (8), SHARD=i/n (take every n-th mutant), WALL (seconds per property, 1.5), ONLY (regex on the mutant text)."""
import concurrent.futures, hashlib, json, os, random, re, subprocess, sys, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import simbuild
REPO = simbuild.REPO
OUT = sys.argv[1]
FILES = sys.argv[2:] or ["src/tsm/tsm-render.c", "src/tsm/tsm-screen.c", "src/tsm/tsm-selection.c", "src/tsm/tsm-unicode.c", "src/tsm/tsm-vte.c", "src/shared/shl-htable.c", "src/shared/shl-ring.c", "src/shared/shl-pty.c", "src/gtktsm/gtktsm-terminal.c"]
JOBS = int(os.environ.get("JOBS", "8")); WALL = os.environ.get("WALL", "1.5")
os.makedirs(OUT, exist_ok=True)
ALL = ["C%02d" % i for i in range(1, 28)] + ["C%d" % i for i in range(31, 37)]
ORDER = {"src/tsm/tsm-render.c": "C04 C08 C10 C17", "src/tsm/tsm-screen.c": "C04 C05 C06 C07 C09 C10 C08 C11 C12", "src/tsm/tsm-selection.c": "C09 C10 C11 C12",
         "src/tsm/tsm-unicode.c": "C02 C25 C09", "src/tsm/tsm-vte.c": "C04 C15 C16 C14 C18 C17 C19 C21 C20 C03 C07 C01 C02 C11", "src/shared/shl-htable.c": "C26 C25",
         "src/shared/shl-ring.c": "C36 C22 C23", "src/shared/shl-pty.c": "C22 C23 C24 C33 C35", "src/gtktsm/gtktsm-terminal.c": "C30"}


def mutants(path):
    src = open(os.path.join(REPO, path)).read().split("\n")
    out = []
    incomment = False
    depth = 0
    for n, l in enumerate(src):
        s = l.strip()
        d0 = depth
        depth += l.count("{") - l.count("}")
        if incomment:
            if "*/" in l:
                incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s:
                incomment = True
            continue
        if s.startswith("//") or s.startswith("#") or s.startswith("*") or not s or "llog_" in s or s.startswith("static const") or s.startswith("SHL_EXPORT"):
            continue
        infn = d0 > 0 and re.match(r"\s", l)
        if not infn:
            continue
        code = re.sub(r"/\*.*?\*/|//.*", lambda m: " " * len(m.group(0)), l)
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', code)]
        inside = lambda p: any(a <= p < b for a, b in strs)

        def add(kind, new):
            if new != l:
                out.append((path, n, kind, new))
        # statements removed
        if re.match(r"^[^{}]*;\s*$", code) and not re.match(r"^\s*(unsigned |struct |int |const |size_t |uint|char |static |bool |for\b|goto |tsm_|u?int|va_|enum |extern |typedef )[^=(]*[;=]", code) and not re.match(r"^\s*(return|\}|case|default|(int|struct|unsigned|size_t|bool|uint\w+|char|ssize_t|tsm_symbol_t|const|uint8_t)\b)", code):
            prev = src[n - 1].strip() if n else ""
            if prev.endswith((";", "{", "}", ":", ")")) or prev.endswith("*/") or not prev or prev == "else":
                add("del", "\t;" if True else "")
        if re.match(r"^\s*case .*:\s*$", code):
            add("delcase", "")
        for m in re.finditer(r"==|!=|<=|>=|(?<![<>\-=])<(?![<=])|(?<![<>\-=])>(?![>=])", code):
            if inside(m.start()):
                continue
            for new in {"==": ["!="], "!=": ["=="], "<=": ["<", ">"], ">=": [">", "<"], "<": ["<=", ">="], ">": [">=", "<="]}[m.group(0)]:
                add("rel", l[:m.start()] + new + l[m.end():])
        for m in re.finditer(r"&&|\|\|", code):
            if not inside(m.start()):
                add("logic", l[:m.start()] + ("||" if m.group(0) == "&&" else "&&") + l[m.end():])
        for m in re.finditer(r" ([+-]) (?=[\w(])", code):
            if not inside(m.start()):
                add("arith", l[:m.start(1)] + ("-" if m.group(1) == "+" else "+") + l[m.end(1):])
        for m in re.finditer(r" [+-] 1\b", code):
            add("off1", l[:m.start()] + l[m.end():])
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])", code):
            if inside(m.start()):
                continue
            v = int(m.group(1), 8 if re.match(r"0\d", m.group(1)) else 0)
            for d in (1, -1):
                if v + d >= 0:
                    add("const", l[:m.start()] + (hex(v + d) if m.group(1).startswith("0x") else "0%o" % (v + d) if re.match(r"0\d", m.group(1)) else str(v + d)) + l[m.end():])
        for m in re.finditer(r"\b(if|while) \(", code):
            # negate the whole condition when it closes on this line
            i = m.end(); dep = 1
            while i < len(code) and dep:
                dep += (code[i] == "(") - (code[i] == ")"); i += 1
            if not dep:
                add("neg", l[:m.end()] + "!(" + l[m.end():i - 1] + ")" + l[i - 1:])
        for m in re.finditer(r"\btrue\b|\bfalse\b", code):
            add("bool", l[:m.start()] + ("false" if m.group(0) == "true" else "true") + l[m.end():])
        for m in re.finditer(r"\+\+|--", code):
            if not inside(m.start()):
                add("incdec", l[:m.start()] + ("--" if m.group(0) == "++" else "++") + l[m.end():])
        for m in re.finditer(r"\|=|&= ~", code):
            add("flag", l[:m.start()] + ("&= ~" if m.group(0) == "|=" else "|= ") + l[m.end():])
        for m in re.finditer(r"(\+|-)=", code):
            add("opeq", l[:m.start()] + ("-=" if m.group(0) == "+=" else "+=") + l[m.end():])
        for a, b in (("_up", "_down"), ("_left", "_right"), ("top", "bottom"), ("_x", "_y"), ("first", "last"), ("prev", "next"), ("foreground", "background"), ("head", "tail")):
            for x, y in ((a, b), (b, a)):
                for m in re.finditer(re.escape(x) + r"(?![a-z])", code):
                    if not inside(m.start()):
                        add("swap", l[:m.start()] + y + l[m.end():])
    return out


def main():
    base = os.path.join(OUT, "base")
    simbuild.build(base)
    if any("/gtktsm/" in f for f in FILES):
        simbuild.build(base, "gtk")
    objs = {os.path.basename(f): os.path.join(base, f) for f in os.listdir(base) if f.endswith(".o") and not f.startswith("sutd_") and not f.endswith(".raw.o")}
    ms = []
    seen = set()
    for f in FILES:
        for m in mutants(f):
            k = (m[0], m[1], m[3])
            if k not in seen:
                seen.add(k); ms.append(m)
    random.Random(int(os.environ.get("MSEED", "7"))).shuffle(ms)
    if os.environ.get("ONLY"):
        ms = [m for m in ms if re.search(os.environ["ONLY"], m[3])]
    if os.environ.get("SHARD"):
        i, n = map(int, os.environ["SHARD"].split("/"))
        ms = ms[i::n]
    done = {}
    lf = os.path.join(OUT, "results.jsonl")
    if os.path.exists(lf):
        for x in open(lf):
            d = json.loads(x); done[d["id"]] = d
    if os.environ.get("RETRY"):   # run the survivors again, e.g. with more time
        done = {i: d for i, d in done.items() if d["result"] != "survived"}
    log = open(lf, "a")
    print("%d mutants, %d already done" % (len(ms), len(done)), flush=True)
    inc = ["-I", REPO + "/src/tsm", "-I", REPO + "/src/shared", "-I", REPO + "/external", "-I", REPO + "/external/wcwidth", "-I", REPO + "/external/xkbcommon", "-I", simbuild.SIM]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0")

    gf = simbuild.run(["pkg-config", "--cflags", "gtk+-3.0", "pangocairo", "xkbcommon"]).split()
    gl = ["-Wl,--as-needed"] + simbuild.run(["pkg-config", "--libs", "gtk+-3.0", "pangocairo", "xkbcommon"]).split()
    ngtk = {"h_seam.cpp.o", "h_p_gtk.cpp.o", "sut_src_gtktsm_gtktsm-terminal.o"}

    def one(m):
        path, n, kind, new = m
        gtk = "/gtktsm/" in path
        src = open(os.path.join(REPO, path)).read().split("\n")
        mid = hashlib.sha1(("%s:%d:%s:%s" % (path, n, src[n], new)).encode()).hexdigest()[:12]
        if mid in done:
            return
        old = src[n]
        src[n] = new
        d = tempfile.mkdtemp(prefix="mut.")
        r = {"id": mid, "file": path, "line": n + 1, "kind": kind, "old": old.strip(), "new": new.strip()}
        try:
            c = os.path.join(d, os.path.basename(path)); open(c, "w").write("\n".join(src))
            o = os.path.join(d, "m.o")
            p = subprocess.run(["gcc", "-std=gnu99", "-O1", "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_POSIX_C_SOURCE=199309L", "-D_GNU_SOURCE", "-fno-omit-frame-pointer", "-fsanitize-coverage=trace-pc"] + simbuild.SAN.split() + inc + (["-DG_DISABLE_CAST_CHECKS", "-I", REPO + "/src/gtktsm"] + gf if gtk else []) + ["-c", c, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode:
                r["result"] = "nobuild"
                return r
            ren = ["objcopy"]
            for x in simbuild.ALLOC + (simbuild.SYS if "/shared/" in path else []):
                ren += ["--redefine-sym", "%s=sim_%s" % (x, x)]
            for x in simbuild.GTK if gtk else []:
                ren += ["--redefine-sym", "%s=simg_%s" % (x, x)]
            subprocess.check_call(ren + [o])
            name = "sut_" + path.replace("/", "_")[:-2] + ".o"
            assert name in objs, name
            exe = os.path.join(d, "sim")
            p = subprocess.run(["g++", "-no-pie", "-fsanitize=address,undefined", "-o", exe] + [o if k == name else v for k, v in objs.items() if gtk or k not in ngtk] + (gl if gtk else []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode:
                r["result"] = "nobuild"
                return r
            order = ORDER[path].split(); order += [x for x in ALL if x not in order]
            if gtk:
                order = ["C30"]
            if os.environ.get("EXTRA"):
                order = os.environ["EXTRA"].split()
            for pr in order:
                try:
                    q = subprocess.run([exe, "batch", "--prop", pr, "--seed", "99", "--from", "0", "--to", "1000000", "--wall", WALL, "--recheck", "1000000", "--out", d + "/o"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=40)
                    bad = q.returncode
                except subprocess.TimeoutExpired:
                    bad = 99
                if bad:
                    r["result"] = "caught"; r["by"] = pr; r["rc"] = bad
                    return r
            r["result"] = "survived"
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)

    t0 = time.time(); k = 0; cnt = {}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(one, ms):
            k += 1
            if not r:
                continue
            cnt[r["result"]] = cnt.get(r["result"], 0) + 1
            log.write(json.dumps(r) + "\n"); log.flush()
            if k % 50 == 0:
                print("%d/%d %.0fs %s" % (k, len(ms), time.time() - t0, cnt), flush=True)
    print(cnt)


main()
