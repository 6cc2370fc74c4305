#!/usr/bin/env python3
"""Solver-based checks of /repo: compile the real sources with goto-cc, decide every
assertion of a harness with CBMC, replay counterexamples natively, write evidence.

usage: run.py PROPERTY [--tier quick|thorough] [--harness NAME] [--verbose] [--keep]
       run.py --list
"""
import argparse, concurrent.futures as cf, json, os, re, resource, shutil, signal
import subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "known-findings.json")
EVID = os.path.join(VERIF, "evidence")
MEM = 14 << 30
JOBS = int(os.environ.get("VP_JOBS", "8"))
BUDGET = {"quick": 780, "thorough": 6 * 3600}
T0 = time.time()
FLOCK = threading.Lock()
FDONE = set()
RUNNING = set()


def sh(cmd, timeout=None, cwd=None, env=None, mem=MEM, inp=None):
    """run a command in its own process group; returns rc, out, err (rc None: timed out)"""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=env, preexec_fn=pre)
    RUNNING.add(p)
    try:
        o, e = p.communicate(input=inp, timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    finally:
        RUNNING.discard(p)


def kill_running():
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


# ---------------------------------------------------------------- generated headers

def gen_headers(dst):
    """Regenerate what the project's configure step makes, from /repo's current files."""
    inc = os.path.join(dst, "gen")
    asm = os.path.join(inc, "bfdev", "asm")
    cry = os.path.join(inc, "bfdev", "crypto")
    os.makedirs(asm), os.makedirs(cry)
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    opts = dict(re.findall(r'option\((\w+)\s+"[^"]*"\s+(\w+)\)', cm))
    ver = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", cm).groups()
    sub = {"PROJECT_VERSION_MAJOR": ver[0], "PROJECT_VERSION_MINOR": ver[1],
           "PROJECT_VERSION_PATCH": ver[2], "BFDEV_VERSION": ".".join(ver), "BFDEV_ARCH": "generic"}
    out = []
    for ln in open(os.path.join(REPO, "cmake", "config.h.in")).read().split("\n"):
        m = re.match(r"#cmakedefine (\w+)", ln)
        if m:
            ln = "#define " + m.group(1) if opts.get(m.group(1)) == "ON" else "/* #undef */"
        else:
            ln = re.sub(r"\$\{(\w+)\}", lambda m: sub.get(m.group(1), ""), ln)
        out.append(ln)
    open(os.path.join(inc, "bfdev", "config.h"), "w").write("\n".join(out))
    src = os.path.join(REPO, "include", "bfdev", "asm-generic")
    arch = os.path.join(REPO, "arch", "generic", "include", "bfdev", "asm")
    for f in sorted(os.listdir(src)):
        if f.endswith(".h") and not os.path.exists(os.path.join(arch, f)):
            open(os.path.join(asm, f), "w").write("#include <bfdev/asm-generic/%s>\n" % f)
    sc = open(os.path.join(REPO, "scripts", "CMakeLists.txt")).read()
    m = re.search(r"if\(BFDEV_CRC_EXTEND\)\s*set\(CRC_ROWS (\d+)\)\s*else\(\)\s*set\(CRC_ROWS (\d+)\)", sc)
    rows = m.group(1) if opts.get("BFDEV_CRC_EXTEND") == "ON" else m.group(2)
    calls = re.findall(r'generate_crctbl\(\s*([\w-]+)\s+([\w.-]+)\s+("[^"]*")\s+(\w+)\s+(\S+)\s+(\w+)\s+("[^"]*")\s*\)', sc)
    for proc in sorted(set(c[0] for c in calls)):
        rc, o, e = sh(["gcc", "-O1", "-w"] + incs(dst) + ["-o", os.path.join(dst, proc),
                      os.path.join(REPO, "scripts", proc + ".c")], timeout=120, mem=None)
        if rc != 0:
            raise RuntimeError("cannot build %s: %s" % (proc, e))
    for proc, path, name, table, rws, poly, trans in calls:
        rws = rows if "CRC_ROWS" in rws else rws
        with open(os.path.join(cry, path), "w") as f:
            subprocess.run("%s %s %s %s %s %s" % (os.path.join(dst, proc), name, table, rws, poly, trans),
                           shell=True, stdout=f, check=True, timeout=60)


def incs(dst):
    return ["-I", os.path.join(REPO, "include"), "-I", os.path.join(dst, "gen"),
            "-I", os.path.join(REPO, "arch", "generic", "include"), "-I", HARNESS]


# ---------------------------------------------------------------- harness directives

class H:
    inst = ""


def parse_harness_file(path):
    """//@ property ID / //@ src FILES / //@ harness NAME key=value... (see DESIGN.md)"""
    res, props, srcs, opts0 = [], [], [], []
    for ln in open(path):
        m = re.match(r"\s*//@\s*(\w+)\s+(.*)", ln)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == "property":
            props = v.split()
        elif k == "src":
            srcs = v.split()
        elif k == "opts":
            opts0 = v.split()
        elif k == "harness":
            w = v.split()
            h = H()
            h.file, h.name, h.props, h.srcs = path, w[0], list(props), list(srcs)
            h.opts = opts0 + [x for x in w[1:] if not x.startswith("property=")]
            for x in w[1:]:
                if x.startswith("property="):
                    h.props = x[9:].split(",")
            res.append(h)
    return res


def resolve(h, tier):
    """options of one tier; `thorough.x=` overrides `x=`, which applies to both"""
    o = {"unwind": "8", "timeout": "300", "solver": "cadical", "D": [], "unwindset": [], "checks": "",
         "object_bits": "9", "tiers": "quick,thorough", "extra": [], "note": "", "fsrc": [], "entry": h.name,
         "libc": "", "bounds": "", "matrix": ""}
    def put(k, v):
        if k in ("D", "unwindset", "extra", "fsrc"):
            o[k] = o[k] + v.split(",")
        else:
            o[k] = v
    for w in h.opts:
        k, _, v = w.partition("=")
        if "." in k:
            continue
        put(k, v)
    for w in h.opts:
        k, _, v = w.partition("=")
        if "." in k:
            t, k = k.split(".", 1)
            if t == tier:
                if k == "D":            # override same-named macros
                    names = [d.split(":")[0] for d in v.split(",")]
                    o["D"] = [d for d in o["D"] if d.split(":")[0] not in names]
                if k == "unwindset":
                    names = [d.rsplit(":", 1)[0] for d in v.split(",")]
                    o["unwindset"] = [d for d in o["unwindset"] if d.rsplit(":", 1)[0] not in names]
                put(k, v)
    o["defs"] = ["-D" + d.replace(":", "=", 1) for d in o["D"]]
    return o


def expand(h, tier):
    """matrix=A:0-3,B:0/2/5 -- one solver run per combination of these macros"""
    m = resolve(h, tier)["matrix"]
    if not m:
        return [h]
    combos = [[]]
    for ax in m.split(","):
        n, _, vs = ax.partition(":")
        vals = []
        for v in vs.split("/"):
            a, dash, b = v.partition("-")
            vals += [str(i) for i in range(int(a), int(b) + 1)] if dash else [v]
        combos = [c + [n + ":" + v] for c in combos for v in vals]
    out = []
    for c in combos:
        g = H()
        g.file, g.name, g.props, g.srcs = h.file, h.name, h.props, h.srcs
        g.opts = h.opts + ["D=" + ",".join(c)]
        g.inst = ",".join(x.replace(":", "=") for x in c)
        out.append(g)
    return out


def all_harnesses():
    r = []
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith(".c"):
            r += parse_harness_file(os.path.join(HARNESS, f))
    return r


# ---------------------------------------------------------------- one harness

CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check",
          "--unwinding-assertions"]


SYMS = {}
SYMLOCK = threading.Lock()


def definer(name, dst):
    """the library source that defines a function (index built once, on first need)"""
    with SYMLOCK:
        if not SYMS:
            SYMS[""] = None
            files = []
            for top in ("src", os.path.join("arch", "generic")):
                for d, _, fs in os.walk(os.path.join(REPO, top)):
                    files += [os.path.join(d, f) for f in fs if f.endswith(".c")]

            def one(i_f):
                i, f = i_f
                obj = os.path.join(dst, "idx%d.o" % i)
                rc, _, _ = sh(["gcc", "-std=gnu11", "-w", "-c", "-o", obj, f] + incs(dst), timeout=60, mem=None)
                if rc != 0:
                    return
                for ln in sh(["nm", "--defined-only", obj], timeout=20, mem=None)[1].split("\n"):
                    w = ln.split()
                    if len(w) == 3 and w[1] in "TDBRW":
                        SYMS[w[2]] = f
            with cf.ThreadPoolExecutor(8) as ex:
                list(ex.map(one, enumerate(sorted(files))))
        return SYMS.get(name)


def compile_goto(h, o, dst, tag):
    srcs = [s if s.startswith("/") else os.path.join(REPO, s) for s in h.srcs + o["fsrc"]]
    for _ in range(6):
        gb = link_goto(h, o, dst, tag, srcs)
        rc, out, err = sh(["goto-instrument", "--list-undefined-functions", gb], timeout=60)
        miss = [w for w in out.split() if re.match(r"_*bfdev_", w)]
        add = []
        for w in miss:
            d = definer(w, dst)
            if d is None:
                raise RuntimeError("no definition of " + w)
            if d not in srcs + add:
                add.append(d)
        if not add:
            return gb, srcs
        srcs = srcs + add
    return gb, srcs


RANGE = re.compile(r"\[\s*(\d+)\s*\.\.\.\s*(\d+)\s*\]\s*=\s*([^,{}\n]+),")


def spelled(src, dst):
    """CBMC's front end takes [a ... b] = v in an initialiser for [a] = v: hand it the range spelled out."""
    try:
        text = open(src).read()
    except (OSError, UnicodeDecodeError):
        return src, []
    if not RANGE.search(text):
        return src, []

    def full(m):
        a, b = int(m.group(1)), int(m.group(2))
        if b - a > 65536:
            raise RuntimeError("range too long in " + src)
        return " ".join("[%d] = %s," % (i, m.group(3)) for i in range(a, b + 1))
    d = os.path.join(dst, "spelled-" + re.sub(r"\W", "_", os.path.abspath(src)) + ".c")
    tmp = "%s.%d" % (d, threading.get_ident())
    with open(tmp, "w") as f:
        f.write('#line 1 "%s"\n' % src + RANGE.sub(full, text))
    os.replace(tmp, d)
    return d, ["-iquote", os.path.dirname(os.path.abspath(src))]


def link_goto(h, o, dst, tag, srcs):
    gb = os.path.join(dst, tag + ".gb")
    pairs = [spelled(x, dst) for x in srcs]
    srcs = [a for a, _ in pairs]
    o = dict(o, defs=o["defs"] + [w for _, q in pairs for w in q])
    cmd = (["goto-cc", "-std=gnu11", "-DVP_CBMC", "-include", os.path.join(HARNESS, "vp_pre.h"), "-o", gb] + o["defs"] + ["-DVP_H_" + h.name] + incs(dst) +
           [h.file] + srcs + ["--function", o["entry"]])
    rc, out, err = sh(cmd, timeout=200)
    if rc != 0:
        raise RuntimeError("goto-cc failed: " + (err + out)[-2000:])
    return gb


def solver_args(s):
    if s in ("cadical", "minisat2"):
        return ["--sat-solver", s]
    if s == "kissat":
        return ["--external-sat-solver", "kissat"]
    return ["--" + s]


def cbmc(gb, o, unwind, timeout, extra=(), slice_=True):
    cmd = ["cbmc", gb, "--json-ui", "--verbosity", "8", "--drop-unused-functions", "--object-bits", o["object_bits"],
           "--unwind", str(unwind)] + CHECKS + solver_args(o["solver"])
    if "malloc-may-fail" not in o["checks"].split(","):
        cmd.append("--no-malloc-may-fail")
    if slice_ and "noslice" not in o["checks"].split(","):
        cmd.append("--slice-formula")
    for c in o["checks"].split(","):
        if c in ("signed-overflow", "undefined-shift", "memory-leak", "memory-cleanup", "pointer-overflow"):
            cmd.append("--%s-check" % c)
    for u in o["unwindset"]:
        cmd += ["--unwindset", u]
    cmd += list(o["extra"]) + list(extra)
    t = time.time()
    rc, out, err = sh(cmd, timeout=timeout)
    wall = time.time() - t
    r = {"rc": rc, "wall": wall, "props": {}, "stats": {}, "cmd": cmd}
    if rc is None:
        r["timeout"] = True
        return r
    try:
        js = json.loads(out)
    except ValueError:
        r["error"] = "cbmc output unreadable (rc %s): %s %s" % (rc, out[-500:], err[-500:])
        return r
    solver = 0.0
    for it in js:
        mt = it.get("messageText", "")
        m = re.match(r"Runtime Solver: ([\d.e+-]+)s", mt)
        if m:
            solver += float(m.group(1))
        m = re.match(r"Runtime Symex: ([\d.e+-]+)s", mt)
        if m:
            r["stats"]["symex_s"] = float(m.group(1))
        m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining after simplification", mt)
        if m:
            r["stats"]["vccs"], r["stats"]["vccs_to_solver"] = int(m.group(1)), int(m.group(2))
        m = re.match(r"(\d+) variables, (\d+) clauses", mt)
        if m:
            r["stats"]["sat_variables"], r["stats"]["sat_clauses"] = int(m.group(1)), int(m.group(2))
        m = re.match(r"size of program expression: (\d+) steps", mt)
        if m:
            r["stats"]["steps"] = int(m.group(1))
        m = re.match(r"VERIFICATION ERROR|.*\((\d+) iterations?\)", mt)
        if m and m.group(1):
            r["stats"]["solver_calls"] = int(m.group(1))
        if it.get("messageType") == "ERROR":
            r["error"] = r.get("error", "") + mt
        for p in it.get("result", []):
            r["props"][p["property"]] = p
    r["stats"]["solver_s"] = round(solver, 3)
    if not r["props"] and "error" not in r:
        r["error"] = "no result from cbmc (rc %s): %s" % (rc, (out + err)[-800:])
    return r


def is_reach(p):
    return p["description"].startswith("VPREACH")


def is_unwind(p):
    return "unwinding assertion" in p["description"] or "recursion unwinding" in p["description"]


def loc(p):
    l = p.get("sourceLocation", {})
    return "%s:%s %s" % (l.get("file", "?"), l.get("line", "?"), l.get("function", "?"))


def trace_inputs(p):
    vals = []
    for st in p.get("trace", []):
        if st.get("stepType") != "assignment" or st.get("lhs") != "vp_input":
            continue
        v = st.get("value", {})
        b = v.get("binary")
        if b is None:
            continue
        if not st.get("sourceLocation", {}).get("function", "").startswith("vp_"):
            continue
        vals.append((st.get("sourceLocation", {}).get("function", ""), int(b, 2)))
    return vals


NATIVE = [
    ("gcc -fsanitize=address,undefined", ["gcc", "-fsanitize=address,undefined", "-fno-sanitize-recover=bounds"]),
    ("clang -fsanitize=memory", ["clang", "-fsanitize=memory", "-fno-omit-frame-pointer"]),
]


def native_build(h, o, dst, srcs, tag):
    exes = []
    for i, (nm, cc) in enumerate(NATIVE):
        exe = os.path.join(dst, "%s.native%d" % (tag, i))
        cmd = (cc + ["-std=gnu11", "-g", "-O1", "-w", "-include", os.path.join(HARNESS, "vp_pre.h"), "-DVP_NATIVE", "-DVP_ENTRY=" + o["entry"]] + o["defs"] +
               ["-DVP_H_" + h.name] + incs(dst) + ["-o", exe, h.file] + srcs)
        rc, out, err = sh(cmd, timeout=200, mem=None)
        if rc == 0:
            exes.append((nm, exe))
        else:
            exes.append((nm, None))
            sys.stderr.write("native build failed (%s): %s\n" % (nm, err[-1500:]))
    return exes


def replay(exes, inputs, prop):
    """run the counterexample against the real code; a confirmed failure is a reason string"""
    inp = " ".join(str(v) for _, v in inputs).encode() + b"\n"
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0", MSAN_OPTIONS="exitcode=98")
    notes = []
    for nm, exe in exes:
        if not exe:
            continue
        rc, out, err = sh([exe], timeout=20, env=env, inp=inp, mem=None)
        tail = (out + err).strip().split("\n")
        brief = next((l for l in tail if "VPFAIL" in l or "ERROR: AddressSanitizer" in l or "WARNING: MemorySanitizer" in l
                      or "runtime error" in l), tail[-1] if tail else "")[:300]
        if rc is None:
            if is_unwind(prop):
                return "%s: does not terminate (20 s)" % nm, notes
            notes.append("%s: timeout" % nm)
        elif rc == 77:
            notes.append("%s: assumption not met on replay" % nm)
        elif rc == 0:
            notes.append("%s: passes" % nm)
        elif is_unwind(prop) and rc == 0:
            notes.append("%s: terminates" % nm)
        else:
            return "%s: rc=%s %s" % (nm, rc, brief), notes
    return None, notes


def functions_encoded(gb):
    rc, out, err = sh(["goto-instrument", "--reachable-call-graph", gb], timeout=60)
    fs = set()
    for l in out.split("\n"):
        for f in re.findall(r"[\w$.]+", l.replace("->", " ")):
            fs.add(f)
    rc, out, err = sh(["goto-instrument", "--list-goto-functions", "--json-ui", gb], timeout=60)
    real = {}
    try:
        for it in json.loads(out):
            for f in it.get("functions", []):
                sl = f.get("sourceLocation", {})
                real[f["name"]] = (sl.get("file", ""), f.get("isBodyAvailable"))
    except ValueError:
        pass
    return sorted(f for f in fs if f in real and real[f][1]
                  and os.path.abspath(real[f][0]).startswith(os.path.abspath(REPO) + "/"))


def run_harness(h, tier, dst, verbose):
    o = resolve(h, tier)
    tag = os.path.basename(h.file)[:-2] + "." + h.name + "." + re.sub(r"\W", "_", h.inst)
    res = {"harness": h.name + ("[" + h.inst + "]" if h.inst else ""), "base": h.name, "file": os.path.basename(h.file), "bounds": o["bounds"], "defs": o["D"],
           "sources": h.srcs + o["fsrc"], "status": None, "fails": []}
    t = time.time()
    try:
        gb, srcs = compile_goto(h, o, dst, tag)
    except RuntimeError as e:
        res.update(status="ERROR", detail=str(e))
        return res
    with FLOCK:
        first = tag.split(".")[1] not in FDONE
        FDONE.add(tag.split(".")[1])
    if first:
        res["functions"] = functions_encoded(gb)
    unwind = int(o["unwind"])
    for attempt in range(5):
        left = BUDGET[tier] - (time.time() - T0)
        r = cbmc(gb, o, unwind, max(10, min(float(o["timeout"]), left)))
        res["stats"] = r["stats"]
        res["cbmc_wall_s"] = round(res.get("cbmc_wall_s", 0) + r["wall"], 2)
        res["unwind"] = unwind
        if r.get("timeout") or r.get("error"):
            break
        bad = [p for p in r["props"].values() if p["status"] == "FAILURE" and not is_reach(p)]
        if bad and all(is_unwind(p) for p in bad) and attempt < 4:
            # the code needs more iterations of some loop: widen that loop, do not alarm
            cur = dict(u.rsplit(":", 1) for u in o["unwindset"])
            for p in bad:
                m = re.match(r"(.*)\.unwind\.(\d+)$", p["property"])
                if m:
                    k = "%s.%s" % m.groups()
                    cur[k] = str(int(cur.get(k, unwind)) * 2 + 2)
                else:
                    unwind = unwind * 2 + 1
            o["unwindset"] = ["%s:%s" % kv for kv in cur.items()]
            continue
        break
    if r.get("timeout"):
        res.update(status="TIMEOUT", detail="cbmc exceeded its budget of %s s" % o["timeout"])
        return res
    if r.get("error"):
        res.update(status="ERROR", detail=r["error"][-1500:])
        return res
    props = r["props"].values()
    reach = [p for p in props if is_reach(p)]
    other = [p for p in props if not is_reach(p)]
    res["reach_points"] = len(reach)
    res["reach_hit"] = sum(p["status"] == "FAILURE" for p in reach)
    res["obligations"] = len(other)
    res["discharged"] = sum(p["status"] == "SUCCESS" for p in other)
    res["user_assertions"] = sum(".assertion." in p["property"] for p in other)
    unk = [p for p in other if p["status"] not in ("SUCCESS", "FAILURE")]
    bad = [p for p in other if p["status"] == "FAILURE"]
    if bad:
        # user assertions first, unwinding last
        bad.sort(key=lambda p: (is_unwind(p), ".assertion." not in p["property"]))
        exes = native_build(h, o, dst, srcs, tag)
        for p in bad[:6]:
            left = BUDGET[tier] - (time.time() - T0)
            tr = cbmc(gb, o, unwind, max(20, min(float(o["timeout"]), left)),
                      extra=["--trace", "--property", p["property"]], slice_=False)
            q = tr["props"].get(p["property"])
            if not q or "trace" not in q:
                res["fails"].append({"property": p["property"], "desc": p["description"], "loc": loc(p),
                                     "confirmed": None, "notes": ["no trace " + str(tr.get("error", ""))[-300:]]})
                continue
            inputs = trace_inputs(q)
            why, notes = replay(exes, inputs, p)
            f = {"property": p["property"], "desc": p["description"], "loc": loc(p), "confirmed": why,
                 "notes": notes, "inputs": inputs}
            res["fails"].append(f)
            if why:
                break
        res["status"] = "FAIL" if any(f["confirmed"] for f in res["fails"]) else "UNCONFIRMED"
        res["unexplored_failures"] = [p["description"] + " @ " + loc(p) for p in bad[6:]]
    elif unk:
        res.update(status="ERROR", detail="undecided: " + unk[0]["description"])
    elif res["reach_hit"] < len(reach) or not reach:
        res.update(status="VACUOUS", detail="; ".join(p["description"] for p in reach if p["status"] != "FAILURE")
                   or "no reachability witness")
    else:
        res["status"] = "PASS"
    return res


STOP = threading.Event()


def guarded(h, tier, dst, verbose):
    if STOP.is_set():
        return {"harness": h.name, "file": h.file, "status": "STOPPED", "fails": []}
    try:
        r = run_harness(h, tier, dst, verbose)
        if STOP.is_set() and r["status"] != "FAIL":
            r["status"] = "STOPPED"
        return r
    except Exception as e:                      # a broken check must say so, not look clean
        return {"harness": h.name, "file": os.path.basename(h.file), "status": "ERROR", "fails": [],
                "bounds": "", "defs": [], "sources": h.srcs, "detail": "internal: %r" % e}


# ---------------------------------------------------------------- main

def load_known():
    try:
        return json.load(open(KNOWN)).get("findings", [])
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    hs = all_harnesses()
    if a.list:
        for h in hs:
            print(",".join(h.props), os.path.basename(h.file), h.name, " ".join(h.opts))
        return 0
    tier = a.tier if a.tier in BUDGET else "quick"
    pid = a.property
    if a.harness:
        sel = [h for h in hs if re.search(a.harness, h.name) and (pid in (None, "-") or pid in h.props)]
    else:
        sel = [h for h in hs if pid in h.props]
    if not (a.harness):
        sel = [h for h in sel if tier in resolve(h, tier)["tiers"].split(",")]
    if not sel:
        print("no harness for", pid)
        return 2
    dst = tempfile.mkdtemp(prefix="vp-")
    sel = [g for h in sel for g in expand(h, tier)]
    try:
        gen_headers(dst)
        results = []
        sel.sort(key=lambda h: -float(resolve(h, tier).get("prio", "0")))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(guarded, h, tier, dst, a.verbose): h for h in sel}
            for f in cf.as_completed(futs):
                if f.cancelled():
                    continue
                r = f.result()
                if r["status"] == "FAIL" and not a.harness:     # one confirmed violation decides the run
                    STOP.set()
                    for g in futs:
                        g.cancel()
                    kill_running()
                if r["status"] == "STOPPED":
                    continue
                results.append(r)
                if r["status"] != "PASS" or not futs[f].inst or a.verbose:
                  print("  [%-11s] %-34s unwind=%-4s vcc=%-6s solver=%-8s wall=%ss" % (
                    r["status"], r["harness"], r.get("unwind", "-"), r.get("stats", {}).get("vccs", "-"),
                    r.get("stats", {}).get("solver_s", "-"), r.get("cbmc_wall_s", "-")), flush=True)
                if r["status"] != "PASS":
                    for x in r["fails"]:
                        print("      %s | %s | %s | confirmed: %s %s" % (x["property"], x["desc"], x["loc"],
                              x["confirmed"], x["notes"]))
                        if a.verbose:
                            print("      inputs:", " ".join("%s" % v for _, v in x.get("inputs", [])))
                    if r.get("detail"):
                        print("      " + r["detail"])
                    for x in r.get("unexplored_failures", []):
                        print("      also failing: " + x)
        results.sort(key=lambda r: (r["file"], r["harness"]))
        rc = finish(pid, tier, results, a)
    finally:
        if a.keep:
            print("kept", dst)
        else:
            shutil.rmtree(dst, ignore_errors=True)
    return rc


def finish(pid, tier, results, a):
    known = load_known()
    viol, broken, kf = [], [], []
    for r in results:
        if r["status"] == "PASS":
            continue
        if r["status"] == "FAIL":
            viol.append(r)
        else:
            broken.append(r)
    if not a.harness:
        write_evidence(pid, tier, results, viol)
        # findings that are recorded rather than repaired: their harness excludes exactly the
        # failing input; a `known` harness shows it still fails
        for k in known:
            if k.get("property") == pid:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    for r in viol:
        d = os.path.join(EVID, "replay", str(pid or "adhoc"), re.sub(r"[^\w.=-]+", "_", r["harness"]))
        os.makedirs(d, exist_ok=True)
        f = next(x for x in r["fails"] if x["confirmed"])
        path = os.path.join(d, "counterexample.json")
        json.dump({"property": pid, "harness": r["harness"], "file": r["file"], "defs": r["defs"],
                   "sources": r["sources"], "assertion": f["desc"], "at": f["loc"],
                   "confirmed_by_replay": f["confirmed"],
                   "inputs_in_order": [v for _, v in f["inputs"]],
                   "how": "python3 vp/replay.py " + path}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s [%s]" % (r["harness"], f["desc"], f["confirmed"]))
        rc = 1
    if rc == 0 and broken:
        for r in broken:
            print("INCONCLUSIVE property=%s harness=%s status=%s %s" % (pid, r["harness"], r["status"],
                                                                      r.get("detail", "")[:300]))
        rc = 2
    print("%s %s: %d harnesses, %.1f s" % (pid, tier, len(results), time.time() - T0))
    return rc


def write_evidence(pid, tier, results, viol):
    os.makedirs(EVID, exist_ok=True)
    fn = sorted(set(f for r in results for f in r.get("functions", [])))
    S = lambda k: sum(r.get("stats", {}).get(k, 0) for r in results)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real sources (goto-cc + CBMC, bit-precise); every "
                           "assertion below was decided by a SAT/SMT solver for all input values within the "
                           "harness's stated bounds, with unwinding assertions on.",
            "functions_encoded": fn, "functions_encoded_count": len(fn),
            "solver_runs": len(results),
            "harnesses": [{k: r.get(k) for k in ("harness", "file", "status", "bounds", "defs", "unwind", "sources",
                           "obligations", "discharged", "user_assertions", "reach_points", "reach_hit",
                           "stats", "cbmc_wall_s")} for r in results],
            "obligations": sum(r.get("obligations", 0) for r in results),
            "discharged": sum(r.get("discharged", 0) for r in results),
            "vccs": S("vccs"), "vccs_to_solver": S("vccs_to_solver"), "solver_calls": S("solver_calls"),
            "solver_s": round(S("solver_s"), 3), "symex_s": round(S("symex_s"), 3),
            "sat_variables": S("sat_variables"), "sat_clauses": S("sat_clauses"),
            "reach_witnesses": sum(r.get("reach_hit", 0) for r in results),
            "counterexamples_replayed": sum(len(r["fails"]) for r in results),
        },
        "assumptions": sorted(set(["allocations succeed unless the harness injects failures through the allocator interface",
                                   "x86-64, LP64, little-endian; debug assertions of the library enabled (default configuration)",
                                   "nothing is claimed outside the stated bounds"])),
        "wall_s": round(time.time() - T0, 2), "violations": len(viol),
    }
    tmp = os.path.join(EVID, pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))


if __name__ == "__main__":
    sys.exit(main())
