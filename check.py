#!/usr/bin/env python3
"""Runs the check of one property: compiles the harnesses of the property together with /repo's current sources to LLVM IR,
executes every entry symbolically (engine/muusym), replays counterexamples and path samples natively, writes the evidence file.

usage: check.py <PROPERTY> [--tier quick|thorough] [--only ENTRY] [--keep] [--jobs N]"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(HERE, "build", "muusym")
CLANG = "/usr/lib/llvm-18/bin/clang++"
LLVM_LINK = "/usr/lib/llvm-18/bin/llvm-link"
COMMON = ["-DMUU_STATIC=1", "-DMUU_HAS_IF_CONSTEVAL_=0", "-I" + REPO + "/include", "-I" + REPO + "/vendor", "-I" + HERE + "/harness", "-march=x86-64-v3", "-ffp-contract=off", "-w"]
IR_FLAGS = ["-O1", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
            "-fno-builtin-memcmp", "-fno-builtin-bcmp", "-Xclang", "-fno-validate-pch", "-emit-llvm", "-c", "-DMUU_VERIF=1",
            "-fsanitize=unreachable,return", "-fsanitize-trap=unreachable,return"]
NATIVE_FLAGS = ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-DMUU_VERIF=1"]
TRUSTED = ["clang 18 front end and -O1 mid-end (C++ to LLVM IR)", "engine/ (IR semantics, memory model, library models in engine/models.cpp)",
           "z3 5.2, cvc5 1.1, kissat (unsat answers)"]


def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)  # with any solver it started
        except OSError:
            pass
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, o, e)


def parse_harness(path, prop):
    text = open(path).read()
    fm = re.search(r"^//@file\s+(\{.*\})\s*$", text, re.M)
    meta = json.loads(fm.group(1)) if fm else {}
    entries = []
    lines = text.split("\n")
    pend = {}
    for ln in lines:
        m = re.match(r"^//@\s+(\{.*\})\s*$", ln)
        if m:
            pend = json.loads(m.group(1))
            continue
        m = re.match(r"^//@entries\s+(.*)$", ln)  # entries produced by a macro
        if m:
            for n in m.group(1).split():
                e = dict(meta.get("defaults", {}))
                e.update(pend)
                e["name"] = n
                entries.append(e)
            pend = {}
            continue
        m = re.match(r"^\s*(?:ENTRY|[A-Z_0-9]*_ENTRY)\(\s*" + prop + r"\s*,\s*(\w+)\s*\)", ln)
        if m:
            e = dict(meta.get("defaults", {}))
            e.update(pend)
            e["name"] = m.group(1)
            entries.append(e)
            pend = {}
    return meta, entries


class Unit:
    """one harness file in one variant: its bitcode and its native replay binary"""

    def __init__(self, path, meta, variant, vflags, wd):
        self.path, self.meta, self.variant, self.vflags, self.wd = path, meta, variant, vflags, wd
        self.stem = os.path.splitext(os.path.basename(path))[0] + ("@" + variant if variant else "")
        self.bc = os.path.join(wd, self.stem + ".bc")
        self.native = os.path.join(wd, self.stem + ".native")
        self.err = None
        self.native_err = None

    def sources(self):
        return [os.path.join(REPO, s) for s in self.meta.get("src", [])]

    def std(self):
        return self.meta.get("std", "gnu++20")

    def flags(self):
        return self.meta.get("flags", []) + self.vflags

    def build_bc(self):
        parts = []
        for i, src in enumerate([self.path] + self.sources()):
            out = os.path.join(self.wd, "%s.%d.bc" % (self.stem, i))
            extra = ["-DMUU_BUILDING=1"] if i else []
            parts.append((out, [CLANG, "-std=" + self.std(), "-include", HERE + "/harness/pre.h"] + COMMON + IR_FLAGS + self.flags() + extra + [src, "-o", out]))
        with cf.ThreadPoolExecutor(4) as ex:
            for p in ex.map(lambda c: sh(c[1], timeout=600), parts):
                if p.returncode:
                    self.err = p.stderr[-4000:]
                    return False
        if len(parts) == 1:
            os.replace(parts[0][0], self.bc)
        else:
            p = sh([LLVM_LINK] + [x[0] for x in parts] + ["-o", self.bc])
            if p.returncode:
                self.err = p.stderr[-3000:]
                return False
        return True

    def build_native(self):
        objs = []
        cmds = []
        for i, src in enumerate([self.path, HERE + "/harness/native.cpp"] + self.sources()):
            o = os.path.join(self.wd, "%s.%d.o" % (self.stem, i))
            objs.append(o)
            extra = ["-DMUU_BUILDING=1"] if i > 1 else []
            cmds.append(["g++", "-std=" + self.meta.get("native_std", self.std()), "-fext-numeric-literals", "-include", HERE + "/harness/pre.h"] + COMMON + NATIVE_FLAGS + self.flags() + extra + ["-c", src, "-o", o])
        with cf.ThreadPoolExecutor(4) as ex:
            for p in ex.map(lambda c: sh(c, timeout=600), cmds):
                if p.returncode:
                    self.native_err = p.stderr[-4000:]
                    return False
        p = sh(["g++", "-fsanitize=address,undefined", "-rdynamic"] + objs + ["-o", self.native, "-ldl", "-lpthread"])
        if p.returncode:
            self.native_err = p.stderr[-3000:]
            return False
        return True

    def replay(self, fn, inputs, tag):
        f = os.path.join(self.wd, "replay.%s.%s.%s" % (self.stem, fn, tag))
        with open(f, "w") as o:
            for n, v in inputs:
                o.write("%s %s\n" % (v[2:], n))
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0"
        try:
            p = sh([self.native, fn, f], timeout=120, env=env)
        except subprocess.TimeoutExpired:
            return {"rc": "timeout", "out": "", "err": "", "file": f}
        return {"rc": p.returncode, "out": p.stdout, "err": p.stderr, "file": f}


def load_known():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"^finding:\s+property=(\S+)\s+entry=(\S+)\s+check=\"([^\"]*)\"\s+(.*)$", ln.strip())
            if m:
                r.append(dict(prop=m.group(1), entry=m.group(2), check=m.group(3), what=m.group(4)))
    return r


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keep, jobs = None, False, 8
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--only":
            only = args[i + 1]
            i += 1
        elif args[i] == "--keep":
            keep = True
        elif args[i] == "--jobs":
            jobs = int(args[i + 1])
            i += 1
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not os.path.exists(ENGINE):
        p = sh([HERE + "/engine/build.sh"])
        if p.returncode:
            print("engine build failed\n" + p.stderr[-3000:])
            return 2
    wd = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, only, jobs, seed, t0, evdir, wd)
    finally:
        if keep:
            print("work directory kept: " + wd)
        else:
            shutil.rmtree(wd, ignore_errors=True)


def run(prop, tier, only, jobs, seed, t0, evdir, wd):
    # total wall-clock cap of a check (a check may take 900 s)
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    jobsl = []
    units = []
    for path in sorted(glob.glob(HERE + "/harness/" + prop + "*.cpp")):
        meta, entries = parse_harness(path, prop)
        for vname, vfl in (meta.get("variants") or {"": []}).items():
            u = Unit(path, meta, vname, vfl, wd)
            use = []
            for e in entries:
                if e.get("tier", "quick") == "thorough" and tier == "quick":
                    continue
                if "variants" in e and vname not in e["variants"]:
                    continue
                if only and only not in (e["name"], e["name"] + "@" + vname):
                    continue
                use.append(e)
            if use:
                units.append(u)
                for e in use:
                    jobsl.append((u, e))
    if not jobsl:
        print("no harness for " + prop)
        return 2

    pool = cf.ThreadPoolExecutor(jobs)
    bc_f = {u: pool.submit(u.build_bc) for u in units}
    nat_f = {}
    for u in units:
        bc_f[u].result()
        if u.err:
            print("cannot compile %s against the current tree:\n%s" % (u.path, u.err))
            return 2
    for u in units:
        nat_f[u] = pool.submit(u.build_native)

    def run_entry(u, e):
        fn = prop + "_" + e["name"]
        out = os.path.join(wd, u.stem + "." + fn + ".json")
        budget = e.get("budget", 120) if tier == "quick" else e.get("thorough_budget", max(900, 4 * e.get("budget", 120)))
        left = deadline - time.time() - 20
        budget = max(5, min(budget, left))
        prove = e.get("prove", 60) if tier == "quick" else e.get("thorough_prove", 600)
        cmd = [ENGINE, u.bc, "--entry=" + fn, "--budget=%g" % budget, "--prove-timeout=%g" % min(prove, budget), "--seed=%d" % seed, "--out=" + out, "--workdir=" + wd]
        cmd += e.get("args", []) + (e.get("thorough_args", []) if tier == "thorough" else [])
        ts = time.time()
        try:
            p = sh(cmd, timeout=budget + min(prove, budget) + 60)
        except subprocess.TimeoutExpired:
            if os.path.exists(out):  # what it had found until then
                r = json.load(open(out))
                r.setdefault("incomplete", {})["engine timeout"] = 1
                return r
            return dict(entry=fn, status="incomplete", incomplete={"engine timeout": 1}, violations=[], samples=[], reached={}, stats={}, solver={}, functions=[], lines={}, stubs=[], wall_s=time.time() - ts)
        if p.returncode or not os.path.exists(out):
            return dict(entry=fn, status="crash", incomplete={"engine failure: " + p.stderr[-600:]: 1}, violations=[], samples=[], reached={}, stats={}, solver={}, functions=[], lines={}, stubs=[], wall_s=time.time() - ts)
        return json.load(open(out))

    order = sorted(jobsl, key=lambda j: -j[1].get("budget", 120))
    futs = [(u, e, pool.submit(run_entry, u, e)) for u, e in order]

    known = [k for k in load_known() if k["prop"] == prop]
    violations, unconfirmed, incompletes, vacuous, mismatches = [], [], [], [], []
    known_hit = []
    warned = set()
    tot = dict(paths=0, instrs=0, forks=0, merges=0, checks=0, proved=0, trivial=0, states=0, switches=0)
    sol = dict(queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, seconds=0.0, by={})
    functions, files, stubs, samples, perentry = set(), {}, set(), [], []
    validated = 0
    kind_native = {"memory": r"AddressSanitizer|runtime error", "ub": r"runtime error|AddressSanitizer", "assume": r"runtime error|AddressSanitizer|CHECK-FAILED",
                   "unreachable": r"runtime error|AddressSanitizer", "trap": r"runtime error", "align": r"runtime error", "terminate": r"TERMINATE|Assertion|AddressSanitizer: ABRT|CHECK-FAILED",
                   "exception": r"UNCAUGHT-EXCEPTION|TERMINATE|AddressSanitizer", "assert": r"CHECK-FAILED|Assertion|runtime error|AddressSanitizer"}
    for u, e, f in futs:
        r = f.result()
        label = e["name"] + ("@" + u.variant if u.variant else "")
        fn = prop + "_" + e["name"]
        for k in tot:
            tot[k] += r["stats"].get(k, 0)
        for k in ("queries", "sat", "unsat", "unknown", "cache_hits", "seconds"):
            sol[k] += r["solver"].get(k, 0)
        for k, v in r["solver"].get("by", {}).items():
            sol["by"][k] = sol["by"].get(k, 0) + v
        functions.update(r["functions"])
        for k, v in r["lines"].items():
            files[k.replace(REPO + "/", "")] = max(files.get(k.replace(REPO + "/", ""), 0), v)
        stubs.update(r["stubs"])
        pe = dict(entry=label, status=r["status"], wall_s=round(r.get("wall_s", 0), 2), paths=r["stats"].get("paths", 0), checks=r["stats"].get("checks", 0),
                  proved=r["stats"].get("proved", 0), queries=r["solver"].get("queries", 0), solver_s=round(r["solver"].get("seconds", 0), 2))
        if e.get("bounds"):
            pe["bounds"] = e["bounds"]
        perentry.append(pe)
        for k, v in r["incomplete"].items():
            incompletes.append("%s: %s (x%s)" % (label, k, v))
        if r["status"] == "crash":
            print("engine failure in %s: %s" % (label, list(r["incomplete"])[:1]))
        for tag in ["end"] + e.get("reach", []):
            if not r["reached"].get(tag) and r["status"] == "proved":
                vacuous.append("%s: %s" % (label, tag))
        nat_f[u].result()
        if u.native_err and u not in warned:
            warned.add(u)
            print("warning: native replay build failed for %s: %s" % (u.stem, u.native_err[:1200]))
        # counterexamples
        for n, v in enumerate(r["violations"]):
            what = "%s: %s: %s at %s" % (label, v["kind"], v["msg"], v["where"][:300])
            inp = {a: b for a, b in v["inputs"]}
            confirmed, how, rep = False, "", None
            if v["kind"] in ("leak", "race", "deadlock", "livelock", "thread") or v["sched"]:
                # the interpreter itself re-executes the concrete run (fixed inputs, fixed schedule)
                out = os.path.join(wd, "confirm.%s.%s.%d.json" % (u.stem, fn, n))
                cmd = [ENGINE, u.bc, "--entry=" + fn, "--budget=120", "--out=" + out, "--workdir=" + wd, "--inputs=" + ",".join(b for a, b in v["inputs"]) + ",",
                       "--sched=" + ",".join(str(x) for x in v["sched"])] + e.get("args", [])
                p = sh(cmd, timeout=300)
                if os.path.exists(out):
                    rr = json.load(open(out))
                    confirmed = any(x["kind"] == v["kind"] for x in rr["violations"])
                    how = "concrete re-execution of the IR with this schedule"
                rep = os.path.join(wd, "cex")
            elif not u.native_err:
                rp = u.replay(fn, v["inputs"], "v%d" % n)
                # what happens after a failed assumption does not count
                txt = rp["out"] + rp["err"] if "ASSUME-FAILED" not in rp["out"] else rp["out"].split("ASSUME-FAILED")[0]
                pat = kind_native.get(v["kind"], r"CHECK-FAILED")
                confirmed = bool(re.search(pat, txt))
                how = "native replay: " + (" ".join(re.findall(r"CHECK-FAILED.*|runtime error:.*|ERROR: AddressSanitizer[^\n]*|.*Assertion.*|TERMINATE|UNCAUGHT.*", txt)[:3]) or "rc=%s" % rp["rc"])
            kn = [k for k in known if k["entry"] == label and k["check"] in v["msg"]]
            if confirmed and kn:
                known_hit.append((kn[0], what))
                continue
            dst = os.path.join(evdir, "replay", "%s.%s.%d.json" % (prop, label, n))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            json.dump(dict(property=prop, entry=label, harness=os.path.relpath(u.path, HERE), kind=v["kind"], message=v["msg"], where=v["where"], inputs=v["inputs"], sched=v["sched"], confirmed=confirmed, how=how), open(dst, "w"), indent=1)
            (violations if confirmed else unconfirmed).append((what, dst, inp, how))
        # validation of the translation: concrete path samples must behave the same natively
        if not u.native_err and not e.get("no_native"):
            limit = e.get("validate", 8)
            for n, smp in enumerate(r["samples"][:limit]):
                rp = u.replay(fn, smp["inputs"], "s%d" % n)
                obs = re.findall(r"^OBS (\w+) (.*)$", rp["out"], re.M)
                want = [(int(v, 16) & ((1 << 64) - 1), k) for k, v in smp["observed"]]
                got = [(int(v, 16), k) for v, k in obs]
                if re.search(r"CHECK-FAILED|ERROR: AddressSanitizer|Assertion .* failed", rp["out"] + rp["err"]):
                    dst = os.path.join(evdir, "replay", "%s.%s.s%d.json" % (prop, label, n))
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    how = " ".join(re.findall(r"CHECK-FAILED.*|ERROR: AddressSanitizer[^\n]*|.*Assertion.*", rp["out"] + rp["err"])[:2])
                    json.dump(dict(property=prop, entry=label, inputs=smp["inputs"], how="native run of an explored path: " + how), open(dst, "w"), indent=1)
                    kn = [k for k in known if k["entry"] == label and k["check"] in how]
                    if kn:
                        known_hit.append((kn[0], how))
                    elif not any(w.startswith(label + ":") for w, *_ in violations):
                        violations.append((label + ": native run fails: " + how, dst, {}, how))
                elif got != want or rp["rc"] != 0:
                    mismatches.append("%s: sample %d: %s" % (label, n, [(k, hex(a), hex(b)) for (a, k), (b, _) in zip(got, want) if a != b][:3] or ("rc=%s" % rp["rc"])))
                else:
                    validated += 1
        for smp in r["samples"][:1]:
            samples.append(dict(entry=label, inputs=smp["inputs"][:12], observed=smp["observed"][:8]))
    pool.shutdown()

    for a, b in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, a["what"]))
    for w in unconfirmed:
        print("unconfirmed counterexample (not reported as a violation): %s [%s] %s" % (w[0], w[3], w[1]))
    for w in mismatches:
        print("translation mismatch: " + w)
    for w in vacuous:
        print("vacuous: " + w)
    for w in incompletes:
        print("incomplete: " + w)
    wall = time.time() - t0
    meta_bounds = sorted({p["bounds"] for p in perentry if "bounds" in p})
    cov = dict(
        states=tot["forks"] + len(jobsl), transitions=tot["instrs"], traces_validated_against_impl=validated, samples=samples[:40],
        explanation="Bounded symbolic execution of the LLVM IR compiled from the current /repo sources; every assertion on every path is decided by SMT over all input values within the bounds.",
        entries=perentry, paths=tot["paths"], merges=tot["merges"], assertions=tot["checks"], assertions_proved=tot["proved"], assertions_proved_by_simplifier=tot["trivial"],
        solver_queries=sol["queries"], solver_unsat=sol["unsat"], solver_sat=sol["sat"], solver_unknown=sol["unknown"], solver_seconds=round(sol["seconds"], 2), decided_by=sol["by"],
        functions_encoded=sorted(functions)[:400], functions_encoded_count=len(functions), source_lines_encoded=files, bounds=meta_bounds, stubs=sorted(stubs),
        incomplete=incompletes, unconfirmed=[w[0] for w in unconfirmed], translation_mismatches=mismatches, vacuous=vacuous,
        exhaustive=not incompletes and not unconfirmed and not violations and not vacuous)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=TRUSTED + meta_bounds, wall_s=round(wall, 2), violations=len(violations))
    with open(os.path.join(evdir, prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    print("%s: %d entries, %d paths, %d/%d assertions proved, %d queries (%.1f s solver), %d traces validated, %d known, %.1f s%s" % (
        prop, len(jobsl), tot["paths"], tot["proved"], tot["checks"], sol["queries"], sol["seconds"], validated, len(known_hit), wall, "" if not incompletes else ", INCOMPLETE %d" % len(incompletes)))
    if violations:
        for w, dst, inp, how in violations:
            print("  violated: %s\n    inputs: %s\n    %s" % (w, {k: inp[k] for k in list(inp)[:24]}, how[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][1]))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
