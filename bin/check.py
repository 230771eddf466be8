#!/usr/bin/env python3
"""Build a harness from /repo's current sources, explore it symbolically, replay
every counterexample against the real code and write the evidence file.

usage: check.py PROPERTY [--thorough] [--only CASE] [--keep]
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "bin"))
from properties import PROPS, HARNESSES  # noqa: E402

BUILD = os.path.join(ROOT, ".build")
CLINGO = None
for pat in ("/opt/clingo-venv/lib/python3*/site-packages/clingo", "/usr/include", "/usr/local/include"):
    for d in sorted(glob.glob(pat)):
        if os.path.exists(os.path.join(d, "clingo.hh")):
            CLINGO = CLINGO or d
SRC = os.path.join(REPO, "libclingo-lpx", "src")
INC = os.path.join(REPO, "libclingo-lpx")

COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w"]
REPOFLAGS = COMMON + ["-O1", "-DCLINGOLPX_NO_VISIBILITY", "-D_GLIBCXX_ASSERTIONS", "-I" + SRC, "-I" + INC]
INSTR = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr,%s,%s" % (CLINGO, ROOT)]


def tree_hash():
    h = hashlib.sha256()
    for base in (INC, os.path.join(REPO, "app")):
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cc", ".hh", ".h", ".c")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h


def engine_hash():
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(os.path.join(ROOT, "engine"))):
        dirs.sort()
        for f in sorted(files):
            h.update(open(os.path.join(d, f), "rb").read())
    return h


class BuildError(Exception):
    pass


def compile_one(job):
    cmd, obj = job
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    os.rename(tmp, obj)


def build(names):
    """Build symbolic and replay binaries of the given harnesses; returns {name: (sym, replay, [repo objects])}."""
    os.makedirs(BUILD, exist_ok=True)
    eng = engine_hash().hexdigest()
    tree = tree_hash().hexdigest()
    jobs = {}

    def obj(src, flags, extra=""):
        key = hashlib.sha256("|".join([src, " ".join(flags), extra]).encode()
                             + open(src, "rb").read()).hexdigest()[:24]
        o = os.path.join(BUILD, os.path.basename(src).replace(".", "_") + "-" + key + ".o")
        jobs[o] = (["g++"] + flags + ["-c", src], o)
        return o

    def plugin():
        """The compiler pass for symbolic bytes."""
        src = os.path.join(ROOT, "engine", "pass", "SymPass.cc")
        llvm = subprocess.run(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"], stdout=subprocess.PIPE, text=True).stdout.split()
        key = hashlib.sha256(open(src, "rb").read() + " ".join(llvm).encode()).hexdigest()[:16]
        so = os.path.join(BUILD, "SymPass-%s.so" % key)
        compile_one((["clang++", "-shared", "-fPIC", "-O1"] + llvm + ["-fno-rtti", src], so))
        return so

    def passobj(src, flags, extra=""):
        cc = "clang" if src.endswith(".c") else "clang++"
        fl = [x for x in flags if not x.startswith(("-finstrument", "-std=" if cc == "clang" else "-finstrument"))]
        fl += ["-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-fpass-plugin=" + plugin(),
               "-include", os.path.join(ROOT, "engine", "symprefix.hh")]
        key = hashlib.sha256("|".join([src, " ".join(fl), extra]).encode()
                             + open(src, "rb").read()).hexdigest()[:24]
        o = os.path.join(BUILD, os.path.basename(src).replace(".", "_") + "-pass-" + key + ".o")
        jobs[o] = ([cc] + fl + ["-c", src], o)
        return o

    def merge(obj, parts):
        """Instrumented code in one object that keeps its instances of the library's templates to itself: the
        engine and the solver must not run instrumented code."""
        if os.path.exists(obj):
            return
        tmp = obj + ".%d.tmp" % os.getpid()
        subprocess.run(["ld", "-r", "--force-group-allocation", "-o", tmp] + parts, check=True)
        r = subprocess.run(["nm", tmp], stdout=subprocess.PIPE, text=True, check=True)
        with open(tmp + ".sym", "w") as f:
            for line in r.stdout.splitlines():
                m = re.match(r"^[0-9a-f]+ ([WVu]) (\S+)$", line)
                # the identity of locale facets is shared with the library
                if m and not re.search(r"2idE$", m.group(2)):
                    f.write(m.group(2) + "\n")
        subprocess.run(["objcopy", "--localize-symbols=" + tmp + ".sym", tmp], check=True)
        os.remove(tmp + ".sym")
        os.rename(tmp, obj)

    out = {}
    links = []
    merges = []
    for n in names:
        h = HARNESSES[n]
        backend = h.get("backend", "flint")
        define = ["-DCLINGOLPX_USE_FLINT"] if backend == "flint" else ["-DCLINGOLPX_USE_IMP", "-DCLINGOLPX_USE_IMATH"]
        stub_inc = ["-I" + os.path.join(ROOT, "engine", "include" if backend == "flint" else "include_imath")]
        cl = ["-I" + CLINGO]
        engsrc = os.path.join(ROOT, "engine")
        engines = [obj(os.path.join(engsrc, "sym.cc"), COMMON + ["-O1"], eng),
                   obj(os.path.join(engsrc, "symrt.cc"), COMMON + ["-O1"], eng),
                   obj(os.path.join(engsrc, "num.cc"), COMMON + ["-O1"], eng)]
        stub = obj(os.path.join(engsrc, backend + "_stub.cc"), COMMON + ["-O1"] + stub_inc, eng)
        if h.get("sim", True):
            engines.append(obj(os.path.join(engsrc, "sim.cc"), COMMON + ["-O1"] + cl, eng))
        hdr = hashlib.sha256()
        for f in sorted(glob.glob(os.path.join(ROOT, "harness", "*.hh")) + glob.glob(os.path.join(ROOT, "harness", "*.inc"))):
            hdr.update(open(f, "rb").read())
        hsrc = os.path.join(ROOT, "harness", h.get("src", n + ".cc"))
        hf = h.get("flags", [])
        bins = []
        for variant in ("sym", "replay"):
            inc = stub_inc if (variant == "sym" or backend != "flint") else []
            flags = REPOFLAGS + define + inc + cl + INSTR + hf
            repo_objs = []
            comp = passobj if h.get("pass") and variant == "sym" else obj
            for r in h["repo"]:
                own = ["-I" + os.path.join(REPO, d) for d in h.get("include", [])] if r.startswith("..") else []
                own += h.get("repo_flags", []) if r.startswith("..") else []
                repo_objs.append(comp(os.path.normpath(os.path.join(SRC, r)), flags + own, tree + eng))
            if comp is passobj:
                repo_objs.append(comp(os.path.join(engsrc, "symlib.c"), ["-O1", "-w"], eng))
            objs = repo_objs + engines
            if comp is passobj:
                key = hashlib.sha256(" ".join(repo_objs).encode()).hexdigest()[:24]
                merged = os.path.join(BUILD, "%s-merged-%s.o" % (n, key))
                merges.append((merged, repo_objs))
                objs = [merged] + engines
            objs.append(obj(hsrc, flags, tree + eng + hdr.hexdigest()))
            libs = ["-lz3", "-lgmpxx", "-lgmp", "-lpthread"]
            if variant == "sym" or backend != "flint":
                objs.append(stub)
            else:
                libs.insert(0, "-lflint")
            key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
            b = os.path.join(BUILD, "%s-%s-%s" % (n, variant, key))
            links.append((b, objs, libs))
            bins.append(b)
        out[n] = tuple(bins)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        order = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0][-1]))
        for f in [ex.submit(compile_one, j) for j in order]:
            f.result()
        for m in merges:
            merge(*m)
        for b, objs, libs in links:
            if not os.path.exists(b):
                tmp = b + ".%d.tmp" % os.getpid()
                r = subprocess.run(["g++", "-no-pie", "-o", tmp] + objs + libs, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    raise BuildError(r.stdout[-4000:])
                os.rename(tmp, b)
    return out


def functions(binary, addrs):
    want = set(addrs)
    r = subprocess.run("nm -C '%s'" % binary, shell=True, stdout=subprocess.PIPE, text=True)
    names = set()
    for line in r.stdout.splitlines():
        m = re.match(r"^([0-9a-f]+) [TtWwVvui] (.*)$", line)
        if m and int(m.group(1), 16) in want:
            s = m.group(2)
            s = re.sub(r"\{lambda.*?\}(?:::)?", "{lambda}", s)
            names.add(s)
    keep = []
    for s in sorted(names):
        if s.startswith(("std::", "__gnu", "sim::", "se::", "void std::", "Clingo::")):
            continue
        keep.append(s[:140])
    return keep


def replay(binary, path, timeout=120):
    try:
        r = subprocess.run([binary, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, "replay timed out"


def replays(binary, paths, enough):
    """Replay in parallel; further counterexamples of a case are left out once violations are confirmed."""
    by_case = {}
    for p in paths:
        by_case.setdefault(parse_case(p).get("case"), []).append(p)
    first = [q[0] for q in by_case.values()]
    rest = [p for q in by_case.values() for p in q[1:]]
    k = os.cpu_count() or 4
    t0 = time.time()
    with cf.ThreadPoolExecutor(max_workers=k) as ex:
        for todo in (first, rest):
            for i in range(0, len(todo), k):
                if enough() and (todo is rest and i > 0 or time.time() - t0 > 60):
                    return
                for p, r in zip(todo[i:i + k], ex.map(lambda q: replay(binary, q), todo[i:i + k])):
                    yield p, r


def parse_case(path):
    d = {"inputs": {}, "choices": [], "notes": []}
    for line in open(path, errors="replace"):
        k, _, rest = line.rstrip("\n").partition(" ")
        if k in ("input", "approx"):
            a, _, b = rest.partition(" ")
            d["inputs"][a] = b
        elif k == "choice":
            p = rest.split(" ")
            d["choices"].append("%s=%s" % (p[0], p[2]))
        elif k == "note":
            d["notes"].append(rest)
        else:
            d[k] = rest
    return d


def known(prop):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^finding: property=(\S+) case=(\S+) msg=(.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    spec = PROPS[prop]
    t0 = time.time()
    ev_dir = os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev_path = os.path.join(ev_dir, prop + ".json")
    try:
        bins = build([r["harness"] for r in spec["runs"]])
    except BuildError as e:
        print("BUILD-ERROR: the harness does not build against the current sources\n" + str(e))
        sys.exit(2)
    t_build = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    rep_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    for f in glob.glob(os.path.join(rep_dir, prop + "-*")):
        os.remove(f)
    tot = {}
    reach, counters, cases, fnames, samples = {}, {}, {}, set(), []
    violations, unconfirmed, findings, problems = [], [], [], []
    validated = 0
    finds = known(prop)
    for k, run in enumerate(spec["runs"]):
        n = run["harness"]
        out = os.path.join(work, "%d-%s" % (k, n))
        os.makedirs(out)
        sym, rep = bins[n]
        deadline = run.get("thorough_deadline", 1500) if thorough else run.get("deadline", 120)
        cmd = [sym, "--out", out, "--jobs", str(os.cpu_count() or 4), "--deadline", str(deadline), "--seed", str(seed)]
        if run.get("cases"):
            cmd += ["--select", run["cases"]]
        if run.get("skip"):
            cmd += ["--skip", run["skip"]]
        if only:
            cmd += ["--case", only]
        if thorough:
            cmd.append("--thorough")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        sp = os.path.join(out, "stats.json")
        if r.returncode != 0 or not os.path.exists(sp):
            print("ERROR: harness %s failed (%s)\n%s" % (n, r.returncode, r.stdout[-3000:]))
            sys.exit(2)
        st = json.load(open(sp))
        for key, v in st.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[key] = max(tot.get(key, 0), v) if key == "max_depth" else tot.get(key, 0) + v
        for src, dst in ((st["reach"], reach), (st["counters"], counters)):
            for a, b in src.items():
                dst[a] = dst.get(a, 0) + b
        for a, b in st["cases"].items():
            cases[n + ":" + a] = {"paths": b[0], "assertions": b[1]}
        fnames |= set(functions(sym, st["functions"]))
        if st["unsupported"]:
            problems.append("%s: %d path(s) left the model: %s" % (n, st["unsupported"], st["unsupported_msg"]))
        if st["incomplete"]:
            problems.append("%s: %d path prefix(es) not finished (time limit or enough violations)" % (n, st["incomplete"]))
        if st["check_unknown"]:
            problems.append("%s: %d assertion(s) undecided by the solver, e.g. %s" % (n, st["check_unknown"], st["undecided_msg"]))
        # counterexamples
        seen = set()
        cex = sorted(glob.glob(os.path.join(out, "viol-*.txt")))
        for v, (rc, txt) in replays(rep, cex, lambda: len(violations) >= 1):
            c = parse_case(v)
            m = re.search(r"^REPLAYED: (.*)$", txt, re.M)
            if rc == 1 and m:
                msg = m.group(1)
                hit = [f for f in finds if (f[0] == c.get("case") or f[0] == "*") and re.fullmatch(f[1], msg)]
                if hit:
                    findings.append((c.get("case"), msg))
                    continue
                if (c.get("case"), msg) in seen:
                    continue
                seen.add((c.get("case"), msg))
                dst = os.path.join(rep_dir, "%s-%d.txt" % (prop, len(violations)))
                shutil.copy(v, dst)
                with open(dst, "a") as f:
                    f.write("replay %s\n" % " ".join([rep, "--replay", dst]))
                    f.write("".join("out " + x + "\n" for x in txt.splitlines()))
                violations.append((n, c, msg, dst, txt))
            elif rc not in (0, 1, 3, 99):
                # the real code crashed on the counterexample's inputs
                msg = c.get("msg", "") + " (the replay against the real code died with status %d)" % rc
                dst = os.path.join(rep_dir, "%s-%d.txt" % (prop, len(violations)))
                shutil.copy(v, dst)
                violations.append((n, c, msg, dst, txt))
            else:
                unconfirmed.append((n, c, (txt.strip().splitlines() or [""])[-1]))
        # validate the encoding on sampled paths
        sf = sorted(glob.glob(os.path.join(out, "sample-*.txt")))
        limit = 24 if not thorough else 40
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for s, (rc, txt) in zip(sf[:limit], ex.map(lambda s: replay(rep, s), sf[:limit])):
                c = parse_case(s)
                if len(samples) < 8:
                    samples.append({"harness": n, "case": c.get("case"), "inputs": c["inputs"],
                                    "choices": c["choices"][:30], "path_condition": c.get("path"),
                                    "notes": c["notes"][:12]})
                if rc == 0:
                    validated += 1
                elif rc == 1:
                    # a path the solver accepted fails on the real code: report it, it is a real run
                    m = re.search(r"^REPLAYED: (.*)$", txt, re.M)
                    msg = m.group(1) if m else txt[-200:]
                    hit = [f for f in finds if (f[0] == c.get("case") or f[0] == "*") and re.fullmatch(f[1], msg)]
                    if hit:
                        findings.append((c.get("case"), msg))
                        continue
                    if (c.get("case"), msg) in seen:
                        continue
                    seen.add((c.get("case"), msg))
                    dst = os.path.join(rep_dir, "%s-%d.txt" % (prop, len(violations)))
                    shutil.copy(s, dst)
                    violations.append((n, c, msg, dst, txt))
                else:
                    counters["sample replays that diverged"] = counters.get("sample replays that diverged", 0) + 1
    missing = []
    if not violations and not only:
        for lab in spec.get("reach", []):
            if reach.get(lab, 0) == 0:
                missing.append(lab)
    shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    complete = not problems
    expl = ("Bounded symbolic execution of the unmodified native code of the functions listed: every number that "
            "crosses the number library boundary is a polynomial over symbolic inputs, each decision made on such a "
            "number forks one path per outcome the SMT solver (Z3) finds satisfiable, and each assertion is decided "
            "by the solver for all inputs of the path. " + spec.get("bounds", ""))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)),
            "transitions": int(tot.get("branches", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": complete,
            "explanation": expl,
            "bounds": spec.get("bounds", ""),
            "outside": spec.get("outside", ""),
            "functions_encoded": sorted(fnames),
            "cases": cases,
            "paths_cut_by_assumptions": int(tot.get("cut_by_assumption", 0)),
            "forks": int(tot.get("forks", 0)),
            "max_branch_depth": int(tot.get("max_depth", 0)),
            "solver_queries": int(tot.get("queries", 0)),
            "solver_seconds": round(tot.get("solver_us", 0) / 1e6, 3),
            "solver_unknown": int(tot.get("unknown", 0)),
            "assertions": int(tot.get("checks", 0)),
            "assertions_decided_by_solver": int(tot.get("checks_by_solver", 0)),
            "assertions_decided_by_normalisation": int(tot.get("checks_by_simplification", 0)),
            "assertions_undecided": int(tot.get("check_unknown", 0)),
            "reached": reach, "counters": counters,
            "incomplete": problems,
            "unconfirmed_counterexamples": ["%s %s: %s [%s]" % (u[0], u[1].get("case"), u[1].get("msg"), u[2])
                                            for u in unconfirmed],
            "known_findings_hit": ["%s: %s" % f for f in findings],
            "build_seconds": round(t_build, 2),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    for c, m in sorted(set(findings)):
        print("KNOWN-FINDING: property=%s case=%s %s" % (prop, c, m))
    print("%s: %d paths, %d assertions (%d undecided), %d queries, %.1f s solver, %.1f s wall, %d sampled paths "
          "replayed on the real code" % (prop, tot.get("paths", 0), tot.get("checks", 0), tot.get("check_unknown", 0),
                                         tot.get("queries", 0), tot.get("solver_us", 0) / 1e6, wall, validated))
    for p in problems:
        print("INCOMPLETE: " + p)
    for u in unconfirmed:
        print("UNCONFIRMED (not reported as violation): %s %s: %s [%s]" % (u[0], u[1].get("case"), u[1].get("msg"), u[2]))
    if violations:
        for n, c, msg, dst, txt in violations:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(dst, ROOT)))
            print("  harness %s case %s: %s" % (n, c.get("case"), msg))
            print("  inputs %s" % " ".join("%s=%s" % x for x in c["inputs"].items()))
            if c["notes"]:
                print("  " + "; ".join(c["notes"][:20]))
        sys.exit(1)
    if tot.get("paths", 0) == 0 or tot.get("checks", 0) == 0 or missing:
        print("ERROR: vacuous run, not reached: %s" % ", ".join(missing))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
