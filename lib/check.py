#!/usr/bin/env python3
"""Driver: lowers the harness and /repo's current sources to LLVM IR, runs the symbolic executor on
every harness entry of one property, replays counterexamples against the natively compiled code, and
writes /verif/evidence/<id>.json.

  check.py ID [quick|thorough]      decide one property
  check.py --replay FILE            run a recorded counterexample against the current code
  check.py --setup                  build the executor and warm the object cache
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NF_REPO", "/repo")
CXX = "/usr/bin/clang++-18"
LLVM = "/usr/lib/llvm-18/bin"
CACHE = os.path.join(VERIF, "build", "cache")
JOBS = min(8, os.cpu_count() or 8)
sys.path.insert(0, os.path.join(VERIF, "checks"))

COMMON = ["-std=c++20", "-DNF_WITH_GINKGO=0", "-DNF_WITH_PETSC=0", "-DNF_WITH_SUNDIALS=0", "-DNEOFOAM_DP_SCALAR=1", "-w"]
IRFLAGS = ["-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-ffp-contract=off"]
NATFLAGS = ["-O0", "-gline-tables-only", "-ffp-contract=off", "-fsanitize=address",
            "-fsanitize=signed-integer-overflow,integer-divide-by-zero,unreachable,return,vptr",
            "-fno-sanitize-recover=all"]
RACEFLAGS = ["-O0", "-gline-tables-only", "-ffp-contract=off", "-fsanitize=thread", "-DNF_TSAN"]
SEGVFLAGS = ["-O0", "-gline-tables-only", "-ffp-contract=off"]
MPI_INC = "/usr/lib/x86_64-linux-gnu/openmpi/include"


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


_tree = {}


def tree_hash(*dirs):
    key = tuple(dirs)
    if key not in _tree:
        h = hashlib.sha256()
        for d in dirs:
            for root, dn, fn in sorted(os.walk(d)):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith((".pyc", ".py", ".json", ".md")):
                        continue
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
        _tree[key] = h.hexdigest()
    return _tree[key]


def file_hash(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def cached(key, ext, make):
    """make(tmp) -> (ok, log); returns (path or None, log)"""
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key + ext)
    if os.path.exists(out):
        return out, ""
    if os.path.exists(out + ".fail"):
        return None, open(out + ".fail").read()
    tmp = out + ".tmp%d" % os.getpid()
    r = make(tmp)
    if r.returncode != 0:
        log = r.stderr[-4000:]
        with open(out + ".fail", "w") as f:
            f.write(log)
        return None, log
    os.replace(tmp, out)
    return out, ""


def build_engine():
    key = "symex-" + hashlib.sha256((file_hash(VERIF + "/engine/symex.cpp") + file_hash(VERIF + "/engine/build.sh")).encode()).hexdigest()[:24]
    return cached(key, "", lambda t: sh(["bash", VERIF + "/engine/build.sh", t]))


def includes(kind):
    r = []
    if kind == "ir":
        r += ["-I" + VERIF + "/shim/std"]
    return r + ["-I" + VERIF + "/shim", "-I" + VERIF + "/lib", "-I" + VERIF + "/checks", "-I" + REPO + "/include"]


def compile_tu(src, kind, defs):
    flags = list(COMMON)
    if kind == "ir":
        flags += IRFLAGS
    elif kind == "nat":
        flags += NATFLAGS
    elif kind == "race":
        flags += RACEFLAGS
    else:
        flags += SEGVFLAGS + ["-DNF_SEGV"]
    flags += includes(kind) + list(defs)
    if "-DNF_WITH_MPI_SUPPORT" in defs:
        flags += ["-I" + MPI_INC]
    inrepo = src.startswith(REPO + "/")
    deps = [tree_hash(REPO + "/include"), tree_hash(VERIF + "/shim"), file_hash(VERIF + "/lib/sym.h"), file_hash(src)]
    if not inrepo:
        deps += [tree_hash(VERIF + "/checks/inc")] + [file_hash(p) for p in sorted(glob.glob(VERIF + "/checks/*.hpp"))]
        text = open(src).read()
        deps += [file_hash(os.path.join(os.path.dirname(src), n)) for n in re.findall(r'#include "([^"/]+\.cpp)"', text)]
        if "INCLUDES_SRC" in text:
            deps.append(tree_hash(REPO + "/src"))
    else:
        # headers and sources that are included from elsewhere than include/
        for n in re.findall(r'#include\s*["<]([^">]+)[">]', open(src, errors="replace").read()):
            for d in (os.path.dirname(src), REPO + "/src", REPO):
                if os.path.isfile(os.path.join(d, n)):
                    deps.append(file_hash(os.path.join(d, n)))
    key = hashlib.sha256("\0".join(deps + flags + [src]).encode()).hexdigest()[:32]
    ext = ".bc" if kind == "ir" else ".o"
    cmd = [CXX] + flags + (["-emit-llvm"] if kind == "ir" else []) + ["-c", src, "-o"]
    return cached(key, ext, lambda t: sh(cmd + [t]))


def repo_sources(globs):
    out = []
    for g in globs:
        out += glob.glob(os.path.join(REPO, "src", g), recursive=True)
    return sorted(set(out))


# sources of back ends that are not installed here, and one dead file whose header is gone
SKIP = ("finiteVolume/cellCentred/operators/expression.cpp",)
BACKEND = {"timeIntegration/rungeKutta.cpp": "-DNF_MODEL_SUNDIALS", "linearAlgebra/ginkgo.cpp": "-DNF_WITH_GINKGO=1"}
MPI_ONLY = ("core/mpi/halfDuplexCommBuffer.cpp", "mesh/unstructured/communicator.cpp")


def source_list(spec):
    srcs = []
    for s in repo_sources(spec.get("sources", ["**/*.cpp"])):
        rel = os.path.relpath(s, REPO + "/src")
        if rel in SKIP or (rel in BACKEND and BACKEND[rel] not in spec.get("defs", [])):
            continue
        if rel in MPI_ONLY and "-DNF_WITH_MPI_SUPPORT" not in spec.get("defs", []):
            continue
        srcs.append(s)
    return srcs


def compile_all(pool, spec, tier, kind):
    """returns (objects, failures)"""
    defs = list(spec.get("defs", []))
    hdefs = defs + ["-DNF_TIER_THOROUGH=%d" % (1 if tier == "thorough" else 0)]
    jobs = []
    for h in spec["harness"]:
        jobs.append((os.path.join(VERIF, "checks", h), kind, hdefs))
    if kind == "ir":
        jobs.append((VERIF + "/lib/runtime.cpp", kind, []))
    else:
        jobs.append((VERIF + "/lib/sym_native.cpp", kind, ["-DNF_HASH_INPUT"] if spec.get("hash_input") else []))
    for s in spec.get("env", []):
        jobs.append((os.path.join(VERIF, "lib", s), kind, defs))
    for s in source_list(spec):
        jobs.append((s, kind, defs))
    return [(j[0], pool.submit(compile_tu, *j)) for j in jobs]


def link_ir(objs, out):
    r = sh([LLVM + "/llvm-link"] + objs + ["-o", out])
    if r.returncode:
        raise Broken("llvm-link: " + r.stderr[-2000:])


def link_native(objs, out, kind):
    flags = {"nat": ["-fsanitize=address,undefined"], "race": ["-fsanitize=thread"], "segv": []}[kind]
    r = sh([CXX] + flags + ["-rdynamic"] + objs + ["-o", out, "-ldl", "-lpthread"])
    if r.returncode:
        raise Broken("link (%s): %s" % (kind, r.stderr[-3000:]))


def collect(futs, what):
    objs, fails = [], []
    for src, f in futs:
        p, log = f.result()
        if p:
            objs.append(p)
        else:
            fails.append((src, log))
    return objs, fails


def run_native(exe, entry, rec, wd, fill=165, race=False, timeout=20):
    fd, path = tempfile.mkstemp(dir=wd, suffix=".in")
    with os.fdopen(fd, "w") as f:
        for i in rec["inputs"]:
            if "i" in i:
                f.write("i %s %d\n" % (i["n"], i["i"]))
            else:
                f.write("f %s %r\n" % (i["n"], float(i["f"])))
        for s in rec["sched"]:
            f.write("s %d\n" % s)
        f.write("p %d\n" % fill)
        if race:
            f.write("race\n")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "malloc_fill_byte=%d" % fill
    cmd = [exe, entry, path]
    if race:
        cmd = ["setarch", "-R"] + cmd
    try:
        r = sh(cmd, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return {"result": "timeout", "text": "", "obs": [], "rc": -1, "err": ""}
    res, text, obs = "crash", "", []
    for ln in r.stdout.splitlines():
        if ln.startswith("RESULT "):
            p = ln.split(" ", 2)
            res, text = p[1], (p[2] if len(p) > 2 else "")
        elif ln.startswith("OBS "):
            p = ln.split(" ")
            obs.append((p[1], " ".join(p[2:-1]), p[-1]))
    if res == "crash":
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|runtime error[^\n]*|terminate called[^\n]*)", r.stderr)
        text = m.group(1) if m else "exit status %d" % r.returncode
    return {"result": res, "text": text, "obs": obs, "rc": r.returncode, "err": r.stderr[-3000:]}


class Natives:
    """native builds of the harness, made when they are needed"""

    def __init__(self, pool, spec, tier, wd):
        self.pool, self.spec, self.tier, self.wd = pool, spec, tier, wd
        self.exe = {}
        self.futs = {}

    def start(self, kind):
        self.futs[kind] = compile_all(self.pool, self.spec, self.tier, kind)

    def get(self, kind):
        if kind not in self.exe:
            if kind not in self.futs:
                self.start(kind)
            objs, fails = collect(self.futs[kind], kind)
            need = [f for f in fails if not f[0].startswith(REPO)]
            if need:
                raise Broken("cannot compile %s: %s" % need[0])
            out = os.path.join(self.wd, "replay_" + kind)
            try:
                link_native(objs, out, kind)
            except Broken as e:
                if fails:
                    raise Broken("cannot compile %s: %s" % fails[0])
                raise e
            self.exe[kind] = out
        return self.exe[kind]


def confirm(nat, entry, v):
    """is the counterexample real? returns (bool, text)"""
    kind = v["kind"]
    if kind == "race":
        for k in range(5):
            r = run_native(nat.get("race"), entry, v, nat.wd, race=True, timeout=60)
            if r["rc"] == 45 or "ThreadSanitizer: data race" in r["err"]:
                return True, "ThreadSanitizer: data race"
        return False, r["result"] + " " + r["text"] + r["err"][-300:]
    exe = nat.get("segv" if kind == "memspace" else "nat")
    last = ""
    for fill in (165, 0, 255, 1, 64):
        r = run_native(exe, entry, v, nat.wd, fill=fill)
        last = r["result"] + " " + r["text"]
        if r["result"] in ("violation", "crash"):
            return True, (r["text"] or "crash")
        if r["result"] == "timeout":
            # a run on these inputs takes milliseconds where the property holds
            return True, "does not terminate"
    return False, last


def close(a, b, t):
    if t == "i":
        return int(a) == int(b)
    a, b = float(a), float(b)
    if a != a or b != b:
        return (a != a) == (b != b)
    if a == b:
        return True
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def validate_trace(nat, entry, t, notes):
    r = run_native(nat.get("segv" if nat.spec.get("memspace") else "nat"), entry, t, nat.wd)
    want = t["obs"]
    if t["how"] == 2:
        ok = r["result"] == "terminated"
    else:
        ok = r["result"] == "ok" and len(r["obs"]) >= len(want)
        byname = {}
        for o in r["obs"]:
            byname.setdefault(o[1], []).append(o)
        for o in want:
            lst = byname.get(o["n"], [])
            if not lst:
                ok = False
                break
            g = lst.pop(0)
            val = o.get("i", o.get("f"))
            if not close(float(val) if g[0] == "f" else val, float(g[2]) if g[0] == "f" else g[2], g[0]):
                notes.append("trace of %s: %s is %s natively, %s symbolically" % (entry, o["n"], g[2], val))
                ok = False
                break
    if not ok and len(notes) < 20:
        notes.append("trace of %s: native result %s %s %s" % (entry, r["result"], r["text"], r["err"][-200:] if r["result"] == "crash" else ""))
    return ok


def undefined(bc):
    r = sh([LLVM + "/llvm-nm", "--undefined-only", "-C", bc])
    return [x for x in r.stdout.splitlines() if re.search(r"\bU (non-virtual thunk to |vtable for )?NeoFOAM::", x)]


def no_definition(pid, tier, spec, what, t0):
    """a declared operation of the public interface cannot be used by any program"""
    replaydir = os.path.join(VERIF, "build", "replay")
    os.makedirs(replaydir, exist_ok=True)
    path = os.path.join(replaydir, "%s-undefined.json" % pid)
    with open(path, "w") as f:
        json.dump({"property": pid, "kind": "undefined", "msg": what}, f)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "model_checking"),
                   "coverage": {"states": 1, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["link of the harness: " + what], "undefined": what},
                   "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": 1}, f, indent=1)
    print("violated: %s" % what)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def load_spec(pid):
    import spec as S
    if pid not in S.CHECKS:
        raise Broken("no check for " + pid)
    s = dict(S.CHECKS[pid])
    s["id"] = pid
    return s


def load_findings():
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) match=\"([^\"]*)\" (.*)", ln)
            if m:
                out.append({"property": m.group(1), "entry": m.group(2), "match": m.group(3), "text": m.group(4)})
    return out


def run_engine(exe, bc, ent, tier, wd, jobs):
    out = os.path.join(wd, ent["name"] + ".jsonl")
    lim = ent.get("timeout", 240 if tier == "quick" else 700)
    cmd = [exe, bc, "--entry", "harness_" + ent["name"], "--out", out, "--jobs", str(jobs), "--timeout", str(lim),
           "--max-viol", str(ent.get("max_viol", 4)), "--traces", str(ent.get("traces", 6))]
    if "hash" in ent:
        cmd += ["--hash", str(ent["hash"])]
    if "rlimit" in ent:
        cmd += ["--rlimit", str(ent["rlimit"])]
    if "max_steps" in ent:
        cmd += ["--max-steps", str(ent["max_steps"])]
    try:
        r = sh(cmd, timeout=lim + 120)
        err = r.stderr[-2000:] if r.returncode not in (0, 1) else ""
    except subprocess.TimeoutExpired:
        err = "engine did not stop"
    recs = []
    if os.path.exists(out):
        for ln in open(out, errors="replace"):
            try:
                recs.append(json.loads(ln))
            except ValueError:
                pass
    summ = [x for x in recs if x["t"] == "summary"]
    return {"ent": ent, "violations": [x for x in recs if x["t"] == "violation"], "traces": [x for x in recs if x["t"] == "trace"],
            "incomplete": [x for x in recs if x["t"] == "incomplete"], "summary": summ[-1] if summ else None, "err": err}


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        p, log = build_engine()
        if not p:
            print(log)
            return 2
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        spec = load_spec(rec["property"])
        wd = tempfile.mkdtemp(prefix="nfreplay.")
        with cf.ThreadPoolExecutor(JOBS) as pool:
            nat = Natives(pool, spec, rec["tier"], wd)
            ok, text = confirm(nat, rec["entry"], rec)
        shutil.rmtree(wd, ignore_errors=True)
        print(("reproduced: " if ok else "not reproduced: ") + text)
        return 1 if ok else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    spec = load_spec(pid)
    wd = tempfile.mkdtemp(prefix="nfcheck.")
    try:
        return decide(pid, tier, spec, wd, t0)
    except Broken as e:
        print("NO-ANSWER property=%s %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def decide(pid, tier, spec, wd, t0):
    entries = [dict(e) for e in spec["entries"] if tier == "thorough" or not e.get("thorough_only")]
    only = os.environ.get("NF_ENTRY")
    if only:
        entries = [e for e in entries if re.search(only, e["name"])]
    findings = [f for f in load_findings() if f["property"] == pid]
    pool = cf.ThreadPoolExecutor(JOBS)
    eng = pool.submit(build_engine)
    irf = compile_all(pool, spec, tier, "ir")
    nat = Natives(pool, spec, tier, wd)
    nat.start("segv" if spec.get("memspace") else "nat")
    exe, log = eng.result()
    if not exe:
        raise Broken("engine: " + log)
    objs, fails = collect(irf, "ir")
    for f, log in fails:
        probe = spec.get("probes", {}).get(os.path.basename(f))
        if probe and all(x[0] == f or os.path.basename(x[0]) in spec["probes"] for x in fails):
            m = re.search(r"error: [^\n]*", log)
            return no_definition(pid, tier, spec, "%s does not compile (%s)" % (probe, m.group(0) if m else ""), t0)
        raise Broken("cannot compile %s: %s" % (f, log))
    bc = os.path.join(wd, "all.bc")
    link_ir(objs, bc)
    if "sources" in spec and undefined(bc):
        # code moved out of the directories this property lives in: take every source file
        spec = dict(spec)
        del spec["sources"]
        nat = Natives(pool, spec, tier, wd)
        nat.start("segv" if spec.get("memspace") else "nat")
        objs, fails = collect(compile_all(pool, spec, tier, "ir"), "ir")
        for f, log in fails:
            raise Broken("cannot compile %s: %s" % (f, log))
        link_ir(objs, bc)
    if undefined(bc):
        try:
            nat.get("segv" if spec.get("memspace") else "nat")
        except Broken as e:
            m = re.search(r"undefined reference to `(NeoFOAM::[^\n]*)'", str(e))
            if m:
                return no_definition(pid, tier, spec, m.group(1) + " is declared but defined nowhere; programs using it do not link", t0)
    t_build = time.time() - t0
    n = len(entries)
    jobs = max(2, (JOBS + n - 1) // n) if n else JOBS
    with cf.ThreadPoolExecutor(max(1, min(n, JOBS))) as ep:
        results = list(ep.map(lambda e: run_engine(exe, bc, e, tier, wd, e.get("jobs", jobs)), entries))
    t_solve = time.time() - t0 - t_build
    confirmed, unconfirmed, known, notes, incomplete = [], [], [], [], []
    missing = []
    tot = {k: 0 for k in ("paths", "queries", "asserts", "asserts_trivial", "insts", "forks", "sched_choices", "unknowns", "terminated", "assumed_away", "concretised", "race_checked_accesses")}
    solver_s = 0.0
    functions = set()
    per = []
    for r in results:
        e, s = r["ent"], r["summary"]
        if s is None:
            raise Broken("no result for %s: %s" % (e["name"], r["err"]))
        for k in tot:
            tot[k] += s.get(k, 0)
        solver_s += s["solver_s"]
        functions.update(s["functions"])
        nv = 0
        for v in r["violations"]:
            if confirmed and time.time() - t0 > 400:
                break  # the verdict is known, more examples of it would only take time
            ok, text = confirm(nat, e["name"], v)
            rec = dict(v)
            rec.update({"property": pid, "entry": e["name"], "tier": tier, "native": text})
            if not ok:
                unconfirmed.append(rec)
                continue
            f = next((f for f in findings if f["entry"] == e["name"] and f["match"] in v["msg"]), None)
            if f:
                known.append((f, rec))
                continue
            confirmed.append(rec)
            nv += 1
        for x in r["incomplete"]:
            incomplete.append({"entry": e["name"], "why": x.get("why", "")[:300]})
        if r["err"]:
            incomplete.append({"entry": e["name"], "why": "engine: " + r["err"][:300]})
        miss = [w for w in e.get("reach", ["end"]) if s["reach"].get(w, 0) == 0]
        if miss and not r["violations"]:
            missing.append((e["name"], miss))
        per.append({"entry": e["name"], "bound": e.get("bound", ""), "paths": s["paths"], "queries": s["queries"],
                    "solver_s": round(s["solver_s"], 3), "asserts": s["asserts"], "asserts_decided_without_solver": s["asserts_trivial"],
                    "incomplete_paths": s["incomplete"], "reach": s["reach"], "wall_s": round(s["wall_s"], 2)})
    # the engine's own account of a few paths is compared with the compiled code
    todo = [(r["ent"]["name"], t) for r in results for t in r["traces"] if not r["ent"].get("no_validate")]
    validated = 0
    if todo:
        nat.get("segv" if spec.get("memspace") else "nat")
        for ok in pool.map(lambda x: validate_trace(nat, x[0], x[1], notes), todo):
            validated += ok
    pool.shutdown()
    if os.environ.get("NF_VERBOSE"):
        for p in per:
            print(json.dumps(p))
        for u in unconfirmed:
            print("UNCONFIRMED", json.dumps(u)[:1500])
        for i in incomplete[:20]:
            print("INCOMPLETE", i)
        for x in notes:
            print("NOTE", x)
    rc = 0
    replaydir = os.path.join(VERIF, "build", "replay")
    os.makedirs(replaydir, exist_ok=True)
    for i, rec in enumerate(confirmed):
        path = os.path.join(replaydir, "%s-%s-%d.json" % (pid, rec["entry"], i))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        print("violated: %s (%s) at %s; natively: %s" % (rec["msg"], rec["entry"], rec["where"], rec["native"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    seen = set()
    for f, rec in known:
        if f["text"] not in seen:
            seen.add(f["text"])
            print("KNOWN-FINDING: property=%s %s" % (pid, f["text"]))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": tot["forks"] + len(results), "transitions": tot["insts"], "traces_validated_against_impl": validated,
            "traces_compared": len(todo), "trace_mismatches": notes,
            "samples": [{"entry": r["ent"]["name"], "inputs": t["inputs"], "schedule": t["sched"], "observed": t["obs"]} for r in results for t in r["traces"][:3]],
            "paths": tot["paths"], "queries": tot["queries"], "solver_s": round(solver_s, 3),
            "obligations": tot["asserts"], "obligations_decided_without_solver": tot["asserts_trivial"],
            "schedule_choices": tot["sched_choices"], "solver_gave_up": tot["unknowns"],
            "inconclusive_paths": incomplete[:50], "unconfirmed_counterexamples": [{"entry": u["entry"], "msg": u["msg"], "native": u["native"]} for u in unconfirmed],
            "functions_encoded": sorted(functions), "entries": per, "bounds": spec.get("bounds", ""),
            "build_s": round(t_build, 1), "solve_s": round(t_solve, 1), "known_findings": sorted(seen),
        },
        "assumptions": spec.get("assumptions", []) + ASSUME,
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d obligations, %d queries, %.1fs solver, %d traces validated, %d inconclusive, %d unconfirmed, %.1fs"
          % (pid, tier, tot["paths"], tot["asserts"], tot["queries"], solver_s, validated, len(incomplete), len(unconfirmed), time.time() - t0))
    if rc == 0 and missing:
        for nme, m in missing:
            print("NO-ANSWER property=%s %s never reaches %s" % (pid, nme, ", ".join(m)))
        return 2
    return rc


ASSUME = [
    "floating-point values are exact reals: rounding error and overflow are outside the claim",
    "Kokkos is replaced by the model in shim/Kokkos_Core.hpp (serial, host-parallel and device spaces)",
    "text output is modelled, not interpreted",
]

if __name__ == "__main__":
    sys.exit(main())
