#!/usr/bin/env python3
"""Driver: decides one property with the symbolic executor and writes its evidence file.

usage: vfdriver.py <PROPERTY> [--tier quick|thorough] [--only ENTRY] [--keep] | --setup | --list
"""
import sys, os, json, subprocess, hashlib, time, shutil, re, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
NPROC = int(os.environ.get("VF_JOBS", "0")) or os.cpu_count() or 4
CLANGXX, CLANG, OPT, LINK = "/usr/bin/clang++-18", "/usr/bin/clang-18", "/usr/bin/opt-18", "/usr/bin/llvm-link-18"
for _n in ("OPT", "LINK"):
    if not os.path.exists(globals()[_n]):
        globals()[_n] = {"OPT": "/usr/bin/opt", "LINK": "/usr/bin/llvm-link"}[_n]
if not os.path.exists(OPT): OPT = "/usr/lib/llvm-18/bin/opt"
if not os.path.exists(LINK): LINK = "/usr/lib/llvm-18/bin/llvm-link"
GXX = "/usr/bin/g++"

sys.path.insert(0, ROOT)
import jobs as J


class Broken(Exception):
    """the check itself cannot give an answer (exit 2)"""


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        return -999, (ex.stdout or b"").decode("utf-8", "replace")


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in ("expr.h", "engine.cpp"):
        h.update(open(os.path.join(ROOT, "engine", f), "rb").read())
    exe = os.path.join(BUILD, "esym-" + h.hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        rc, out = sh([CLANGXX, "-std=c++17", "-O2", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
                      "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
                      os.path.join(ROOT, "engine", "engine.cpp"), "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
        if rc: raise Broken("engine build failed:\n" + out[-3000:])
        os.rename(tmp, exe)
        for f in os.listdir(BUILD):
            if f.startswith("esym-") and os.path.join(BUILD, f) != exe and ".tmp" not in f:
                try: os.remove(os.path.join(BUILD, f))
                except OSError: pass
    return exe


DEFS = ["-D_GLIBCXX_EXTERN_TEMPLATE=0"]


def compile_bc(work, src, std, defs):
    tag = os.path.basename(src).replace(".cpp", "") + "-" + std + ("-" + hashlib.md5(" ".join(defs).encode()).hexdigest()[:6] if defs else "")
    o = os.path.join(work, tag)
    common = ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-ffp-contract=off", "-w", "-emit-llvm", "-c"]
    rc, out = sh([CLANGXX, "-std=c++" + std] + common + DEFS + defs + ["-I" + os.path.join(ROOT, "lib"), "-I" + os.path.join(REPO, "include"), src, "-o", o + ".0.bc"])
    if rc: raise Broken("harness %s does not compile against the current tree:\n%s" % (os.path.basename(src), out[-4000:]))
    lib = o + ".libc.bc"
    rc, out = sh([CLANG] + common + ["-fno-builtin", os.path.join(ROOT, "lib", "vf_libc.c"), "-o", lib])
    if rc: raise Broken(out[-2000:])
    rc, out = sh([LINK, o + ".0.bc", lib, "-o", o + ".1.bc"])
    if rc: raise Broken(out[-2000:])
    rc, out = sh([OPT, "-passes=sroa", o + ".1.bc", "-o", o + ".bc"])
    if rc: raise Broken(out[-2000:])
    return o + ".bc"


def compile_native(work, src, std, defs, flavour):
    """flavour: gcc (ASan+UBSan), clang (ASan+UBSan), plain (for valgrind), tsan"""
    tag = os.path.basename(src).replace(".cpp", "") + "-" + std + "-" + flavour + ("-" + hashlib.md5(" ".join(defs).encode()).hexdigest()[:6] if defs else "")
    o = os.path.join(work, tag)
    text = open(src).read()
    for inc in re.findall(r'#include "(\w+\.h)"', text):
        p = os.path.join(os.path.dirname(src), inc)
        if os.path.exists(p): text += open(p).read()
    names = re.findall(r"VF_ENTRY\((\w+)\)", text)
    wraps = sorted(set(re.findall(r"\b__wrap_(\w+)\s*\(", text)))
    with open(o + ".entries.cpp", "w") as f:
        f.write('extern "C" {\n' + "".join("__attribute__((weak)) void %s();\n" % n for n in names))
        f.write("struct VfEntry { const char* name; void (*fn)(); };\nextern VfEntry vf_entries[];\nVfEntry vf_entries[] = {")
        f.write("".join('{"%s", %s},' % (n, n) for n in names) + "{0, 0}};\n}\n")
    cxx = GXX if flavour in ("gcc", "plain") else CLANGXX
    san = {"gcc": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"], "clang": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"],
           "plain": ["-O0"], "tsan": ["-O1", "-fsanitize=thread"]}[flavour]
    rc, out = sh([cxx, "-std=c++" + std, "-g1", "-w", "-ffp-contract=off", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE"] + san + defs +
                 ["-I" + os.path.join(ROOT, "lib"), "-I" + os.path.join(REPO, "include"), src, os.path.join(ROOT, "lib", "vf_rt.cpp"), o + ".entries.cpp",
                  "-o", o + ".exe", "-pthread"] + ["-Wl,--wrap=" + w for w in wraps])
    if rc: raise Broken("native build of %s failed:\n%s" % (os.path.basename(src), out[-4000:]))
    return o + ".exe"


def spans(xs):
    xs = sorted(xs); out = []
    for x in xs:
        if out and x == out[-1][1] + 1: out[-1][1] = x
        else: out.append([x, x])
    return " ".join("%d" % a if a == b else "%d-%d" % (a, b) for a, b in out)


def write_vals(path, vals):
    with open(path, "w") as f:
        for n, v in vals: f.write("%s %d\n" % (re.sub(r"\s", "_", n) or "_", v))


NENV = {"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:abort_on_error=0:alloc_dealloc_mismatch=1", "UBSAN_OPTIONS": "print_stacktrace=0", "TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}


def run_native(exe, entry, vals_file, params, timeout=30, valgrind=False):
    cmd = [exe, entry] + ["%s=%d" % kv for kv in sorted(params.items())]
    if valgrind: cmd = ["/usr/bin/valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite"] + cmd; timeout = 90
    rc, out = sh(cmd, timeout=timeout, env=dict(NENV, VF_REPLAY=vals_file))
    return rc, out


def native_verdict(rc, out):
    if rc == -999: return "hang"
    if rc == 77: return "assume"
    if rc == 0 and "VF-OK" in out: return "ok"
    m = re.search(r"VF-FAIL ([\w-]+): (.*)", out)
    if m: return "fail:%s:%s" % (m.group(1), m.group(2))
    m = re.search(r"SUMMARY: (.*)|runtime error: (.*)|WARNING: ThreadSanitizer: (.*)|(Invalid (?:read|write).*)|(.*depends on uninitialised value.*)|(Use of uninitialised.*)|(.*definitely lost.*)", out)
    return "fail:" + ((m.group(0).strip()[:200]) if m else "exit status %s" % rc)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.cache = {}

    def once(self, key, fn):
        with self.lock:
            if key not in self.cache: self.cache[key] = (threading.Lock(), [])
            lk, box = self.cache[key]
        with lk:
            if not box:
                try: box.append((True, fn()))
                except Exception as e: box.append((False, e))
        ok, v = box[0]
        if ok: return v
        raise v

    def bc(self, j): return self.once(("bc", j["src"], j["std"], tuple(j["defs"])), lambda: compile_bc(self.work, j["src"], j["std"], j["defs"]))
    def native(self, j, fl): return self.once(("n", j["src"], j["std"], tuple(j["defs"]), fl), lambda: compile_native(self.work, j["src"], j["std"], j["defs"], fl))

    def engine(self, j):
        bc = self.bc(j)
        out = os.path.join(self.work, "res-%d.json" % j["idx"])
        cmd = [self.exe, bc, "--entry", j["entry"], "--out", out, "--seed", str(self.seed), "--time", str(j["time"]), "--samples", str(j["samples"]), "--mem", str(j.get("mem", 5000))] + j["flags"]
        for k, v in j["params"].items(): cmd += ["--param", "%s=%d" % (k, v)]
        if self.tier == "thorough":
            d = os.path.join(self.work, "dump-%d" % j["idx"]); os.makedirs(d, exist_ok=True); cmd += ["--dump", d]
        t = time.time()
        rc, log = sh(cmd, timeout=j["time"] + 60)
        if rc not in (0, 1, 2) or not os.path.exists(out):
            raise Broken("engine failed on %s (%s): rc=%s\n%s" % (j["entry"], os.path.basename(j["src"]), rc, log[-3000:]))
        r = json.load(open(out)); r["rc"] = rc; r["job"] = j; r["t"] = time.time() - t
        return r

    def validate(self, r):
        """replay sampled explored paths against the natively compiled library"""
        j = r["job"]; n = 0; bad = []
        if not j["native"]: return 0, []
        for fl in j["flavours"]:
            exe = self.native(j, fl)
            for k, s in enumerate(r["samples"]):
                vf = os.path.join(self.work, "val-%d-%d.txt" % (j["idx"], k)); write_vals(vf, s["values"])
                rc, out = run_native(exe, j["entry"], vf, j["params"])
                v = native_verdict(rc, out)
                obs = [int(x) for x in re.findall(r"^OBS (\d+)$", out, re.M)]
                if v == "assume": raise Broken("sampled path of %s leaves the assumptions natively" % j["entry"])
                if v != "ok": bad.append((fl, s, v, out))
                elif obs != s["observed"]: bad.append((fl, s, "observations differ: native %s, symbolic %s" % (obs[:40], s["observed"][:40]), out))
                else: n += 1
        return n, bad

    def confirm(self, j, err):
        """replay a counterexample natively; returns (confirmed, description)"""
        vf = os.path.join(self.work, "cex-%d.txt" % j["idx"]); write_vals(vf, err["values"])
        notes = []; ok = False
        if err["schedule"] or not j["native"]:
            # concurrent / engine-only: deterministic concrete re-execution in the engine under the recorded inputs
            return True, ["engine schedule replay (thread ids at each scheduling point): %s" % err["schedule"]]
        for fl in ("clang", "gcc"):
            try:
                rc, out = run_native(self.native(j, fl), j["entry"], vf, j["params"], timeout=20)
            except Broken as b:
                notes.append("%s: %s" % (fl, str(b)[:200])); continue
            v = native_verdict(rc, out); notes.append("%s+sanitizers: %s" % (fl, v))
            if v not in ("ok", "assume"): ok = True; break
        if not ok and err["kind"] in ("uninitialised", "memory"):
            try:
                rc, out = run_native(self.native(j, "plain"), j["entry"], vf, j["params"], valgrind=True)
                v = native_verdict(rc, out); notes.append("valgrind: %s" % v)
                if v not in ("ok", "assume"): ok = True
            except Broken as b: notes.append(str(b)[:200])
        return ok, notes


def crosscheck(work, res):
    """thorough tier: a sample of the discharged queries is re-decided by cvc5 and by the newer z3"""
    agree = dis = unk = 0
    for j in res:
        d = os.path.join(work, "dump-%d" % j["job"]["idx"])
        if not os.path.isdir(d): continue
        for f in sorted(os.listdir(d))[:4]:
            want = f.split(".")[1]
            for solver in (["/usr/bin/cvc5", "--tlimit=20000"], [shutil.which("z3-new") or "/usr/bin/z3", "-T:20"]):
                if not os.path.exists(solver[0]):
                    solver[0] = shutil.which(os.path.basename(solver[0])) or solver[0]
                rc, out = sh(solver + [os.path.join(d, f)], timeout=40)
                if "(error" in out: unk += 1
                elif re.search(r"^(sat|unsat)$", out, re.M):
                    got = re.search(r"^(sat|unsat)$", out, re.M).group(1)
                    if got == want: agree += 1
                    else: dis += 1
                else: unk += 1
    return agree, dis, unk


UB = ("memory", "uninitialised", "lifetime", "leak", "unreachable", "arithmetic", "overflow", "data-race", "deadlock", "livelock", "lock", "nontermination", "terminate", "recursion", "abort")


def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "--list":
        for p in sorted(J.JOBS): print(p, [x["entry"] for x in J.JOBS[p]])
        return 0
    if a[0] == "--setup":
        build_engine(); print("engine ready"); return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    verbose = "-v" in a
    t0 = time.time()
    run = Run(prop, tier, seed)
    rc = 2
    try:
        rc = check(run, prop, tier, seed, only, verbose, t0)
    except Broken as b:
        print("CHECK-ERROR property=%s: %s" % (prop, b))
        rc = 2
    finally:
        if "--keep" not in a: shutil.rmtree(run.work, ignore_errors=True)
    return rc


def check(run, prop, tier, seed, only, verbose, t0):
    run.exe = build_engine()
    jobs = []
    for spec in J.JOBS[prop]:
        if only and spec["entry"] != only: continue
        if spec.get("tier") == "thorough" and tier != "thorough": continue
        grids = [dict()]
        for k, v in {**spec.get("params", {}), **(spec.get("thorough", {}) if tier == "thorough" else {})}.items():
            vs = v if isinstance(v, list) else [v]
            grids = [dict(g, **{k: x}) for g in grids for x in vs]
        for std in (spec.get("std", ["17"]) + (spec.get("std_thorough", []) if tier == "thorough" else [])):
            for g in grids:
                j = dict(idx=len(jobs), src=os.path.join(ROOT, "harness", spec["h"]), entry=spec["entry"], std=std, params=g, defs=spec.get("defs", []),
                         flags=spec.get("flags", []), time=spec.get("time", 300 if tier == "quick" else 1500), samples=spec.get("samples", 4 if tier == "quick" else 16),
                         native=spec.get("native", True), flavours=spec.get("flavours", ["gcc"]) if tier == "quick" else ["gcc", "clang"], known=spec.get("known"), cost=spec.get("cost", 1), optional=spec.get("optional", False), deep=spec.get("deep", spec.get("cost", 1) >= 6))
                jobs.append(j)
    if not jobs: raise Broken("no jobs")
    order = sorted(jobs, key=lambda j: -j["cost"])
    stop = threading.Event()
    results, violations, broken, known_lines = [], [], [], []
    validated = [0]
    def do(j):
        if stop.is_set(): return
        if tier == "quick": j["time"] = min(240 if j["deep"] else j["time"], max(20, 780 - (time.time() - t0)))
        if j["optional"]:
            try: run.bc(j); run.native(j, "gcc")
            except Broken:
                print("NOTE property=%s: %s skipped, the internal helpers it looks at have changed their form" % (prop, j["entry"])); return
        try:
            r = run.engine(j)
            nv, bad = (0, [])
            if not r["errors"] and j["known"] is None: nv, bad = run.validate(r)
            with run.lock:
                results.append(r); validated[0] += nv
                if verbose: print("  %-28s c++%s %-28s paths=%d killed=%d instr=%d queries=%d solver=%.1fs wall=%.1fs err=%d complete=%s nv=%d" % (j["entry"], j["std"], j["params"], r["paths"], r["killed"], r["instructions"], r["queries"], r["solver_s"], r["wall_s"], len(r["errors"]), r["complete"], nv)); sys.stdout.flush()
            for fl, s, v, out in bad:
                with run.lock: violations.append((j, dict(kind="native-divergence", msg="path passes symbolically but the %s build does not: %s" % (fl, v), loc="", stack="", schedule="", values=s["values"]), True, [out[-1500:]]))
                stop.set()
            for e in r["errors"]:
                ok, notes = run.confirm(j, e)
                with run.lock: violations.append((j, e, ok, notes))
                if j["known"] is None: stop.set()
            if not r["errors"]:
                if not r["complete"] and r["paths"] and "budget exhausted" in r["incomplete_reason"]:   # no violation on the part explored; say how far it got (the evidence records it, and exhaustive=false)
                    print("NOTE property=%s: bound of %s not reached: %s" % (prop, j["entry"], r["incomplete_reason"])); return
                if not r["complete"]: raise Broken("exploration of %s incomplete: %s" % (j["entry"], r["incomplete_reason"]))
                missing = set(r["labels"]) - set(r["reached"])
                if missing or r["paths"] == 0: raise Broken("vacuous: %s never reaches %s (paths=%d)" % (j["entry"], sorted(missing), r["paths"]))
        except Broken as b:
            with run.lock: broken.append("%s c++%s: %s" % (j["entry"], j["std"], b))
    with ThreadPoolExecutor(max_workers=NPROC) as ex: list(ex.map(do, order))

    real = []
    outdir = os.path.join(ROOT, "out"); os.makedirs(outdir, exist_ok=True)
    known = json.load(open(os.path.join(ROOT, "known_findings.json"))).get("findings", [])
    for j, e, ok, notes in violations:
        kf = next((k for k in known if k.get("property") == prop and k.get("entry") == j["entry"] and k.get("kind") == e["kind"] and k.get("msg", "") in e["msg"] and k.get("where", "") in e["stack"] + e["loc"]), None) if j["known"] else None
        if kf: known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, kf["what"])); continue
        if not ok and e["kind"] not in UB:
            broken.append("unconfirmed counterexample in %s: %s: %s %s" % (j["entry"], e["kind"], e["msg"], notes)); continue
        real.append((j, e, ok, notes))
    if results and not real and not any(r["complete"] for r in results): broken.append("no harness was explored completely")
    unknown = sum(r["unknown"] for r in results)
    cross = None
    if tier == "thorough" and not real:
        ag, di, un = crosscheck(run.work, results); cross = dict(agree=ag, disagree=di, undecided=un)
        if di: broken.append("solver disagreement on %d queries" % di)
    # evidence
    funcs = sorted(set(f for r in results for f in r["functions"]))
    lines = {}
    for r in results:
        for f, (hit, seen) in r.get("lines", {}).items(): a = lines.setdefault(f, [set(), set()]); a[0].update(hit); a[1].update(seen)
    lines = {f: dict(executed=len(a[0]), not_executed=sorted(a[1] - a[0]), lines=spans(a[0])) for f, a in sorted(lines.items())}
    meta = J.META.get(prop, {})
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(r["forks"] + 1 for r in results), transitions=sum(r["instructions"] for r in results), paths=sum(r["paths"] for r in results),
                            paths_outside_assumptions=sum(r["killed"] for r in results), infeasible_branches_refuted=sum(r["infeasible"] for r in results),
                            assertions_decided=sum(r["asserts"] for r in results), memory_accesses_checked=sum(r["memchecks"] for r in results),
                            scheduling_points=sum(r["sched_points"] for r in results),
                            traces_validated_against_impl=validated[0], solver=dict(name="z3 4.8.12", queries=sum(r["queries"] for r in results), sat=sum(r["sat"] for r in results), unsat=sum(r["unsat"] for r in results),
                            unknown=unknown, cache_hits=sum(r["cache_hits"] for r in results), seconds=round(sum(r["solver_s"] for r in results), 2)),
                            crosscheck=cross, functions_encoded=funcs[:400], functions_encoded_count=len(funcs), library_lines=lines, bounds=meta.get("bounds", ""), outside_bounds=meta.get("outside", ""),
                            harnesses=[dict(entry=r["job"]["entry"], std="c++" + r["job"]["std"], params=r["job"]["params"], paths=r["paths"], queries=r["queries"], wall_s=round(r["wall_s"], 2), complete=r["complete"]) for r in sorted(results, key=lambda r: r["job"]["idx"])],
                            samples=[dict(entry=r["job"]["entry"], inputs=s["values"][:60], observed=s["observed"][:60]) for r in results for s in r["samples"][:1]][:8],
                            exhaustive=all(r["complete"] for r in results) and not broken and not real),
              assumptions=J.COMMON_ASSUMPTIONS + meta.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(real))
    if not ev["coverage"]["samples"]: ev["coverage"]["samples"] = [dict(entry=j["entry"], inputs=e["values"][:60], error=e["msg"]) for j, e, ok, n in real][:3] or ["none"]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for l in sorted(set(known_lines)): print(l)
    if real:
        for n, (j, e, ok, notes) in enumerate(real):
            p = os.path.join(outdir, "%s-%s-%d.json" % (prop, j["entry"], n))
            json.dump(dict(property=prop, harness=os.path.relpath(j["src"], ROOT), entry=j["entry"], std=j["std"], params=j["params"], kind=e["kind"], message=e["msg"], location=e["loc"], stack=e["stack"], schedule=e["schedule"],
                           values=e["values"], confirmed_natively=ok, replay_notes=notes, how="./replay.py " + os.path.relpath(p, ROOT)), open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  %s c++%s: %s: %s at %s" % (j["entry"], j["std"], e["kind"], e["msg"], e["loc"]))
            print("  inputs: %s" % " ".join("%s=%d" % (a, b) for a, b in e["values"][:40]))
            for x in notes: print("  replay: %s" % x.replace("\n", "\n    ")[:900])
        return 1
    if broken:
        seen = set()
        for b in broken:
            body = b.split(": ", 1)[-1]
            if body in seen: continue
            seen.add(body); print("CHECK-ERROR property=%s: %s" % (prop, b[:3000]))
        return 2
    print("OK property=%s tier=%s: %d harness runs, %d paths, %d assertions, %d solver queries (%.1fs), %d traces replayed natively, %.1fs" % (prop, tier, len(results), sum(r["paths"] for r in results), sum(r["asserts"] for r in results), sum(r["queries"] for r in results), sum(r["solver_s"] for r in results), validated[0], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
