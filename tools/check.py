#!/usr/bin/env python3
"""Runs the symbolic check of one property:  check.py <ID> [--thorough] [--harness NAME]

Builds the instrumented and the native version of /repo's sources and of harness/<ID>*.cpp,
explores every harness, replays counterexamples against the native build, writes
evidence/<ID>.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: error of the check."""
import sys, os, json, time, hashlib, subprocess, glob, shutil, re, concurrent.futures as cf, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
SRC = os.path.join(REPO, "Merlin++")
BUILD = os.environ.get("SX_BUILD", os.path.join(VERIF, "build"))
ENG = os.path.join(VERIF, "engine")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
Z3V = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
J = int(os.environ.get("SX_JOBS", "8"))
IFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-include", ENG + "/sxcfg.h",
          "-std=c++14", "-DNDEBUG", "-w", "-fno-pie", "-fno-access-control"]
NFLAGS = ["-O2", "-std=c++14", "-DNDEBUG", "-w", "-fno-pie", "-fno-access-control", "-ffp-contract=off"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd)[:400], r.stdout[-6000:]))
    return r.stdout


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


class Builder:
    def __init__(self):
        os.makedirs(BUILD + "/obj", exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(J)
        self.fut = {}
        self.lock = threading.Lock()
        self.headers = h(*[rd(p) for p in sorted(glob.glob(SRC + "/*.h") + glob.glob(SRC + "/*.hpp"))])
        self.zinc = ["-I" + Z3V + "/include"] if os.path.exists(Z3V + "/lib/libz3.so") else []
        self.zlib = [Z3V + "/lib/libz3.so", "-Wl,-rpath," + Z3V + "/lib"] if self.zinc else ["-lz3"]
        self.passkey = h(rd(ENG + "/sxpass.cpp"), rd(ENG + "/sxcfg.h"))

    def cached(self, out, cmd_fn):
        """compile into out unless present (atomic rename)"""
        with self.lock:
            if out in self.fut:
                return self.fut[out]

            def go():
                if os.path.exists(out):
                    return out
                tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
                sh(cmd_fn(tmp))
                os.rename(tmp, out)
                return out
            f = self.pool.submit(go)
            self.fut[out] = f
            return f

    def sxpass(self):
        out = "%s/sxpass-%s.so" % (BUILD, self.passkey)
        cfg = subprocess.run(["llvm-config-18", "--cxxflags"], stdout=subprocess.PIPE, text=True).stdout.split()
        return self.cached(out, lambda o: [CLANG, "-O1", "-std=c++17", "-fPIC", "-shared", "-fno-rtti"] + [c for c in cfg if not c.startswith("-std")]
                           + ["-w", ENG + "/sxpass.cpp", "-o", o])

    def rt(self):
        out = "%s/sxrt-%s.o" % (BUILD, h(rd(ENG + "/sxrt.cpp"), rd(ENG + "/sx.h")))
        return self.cached(out, lambda o: ["g++", "-O1", "-std=c++17", "-fno-pie", "-w", "-I" + ENG] + self.zinc + ["-c", ENG + "/sxrt.cpp", "-o", o])

    def native_rt(self):
        out = "%s/sxnative-%s.o" % (BUILD, h(rd(ENG + "/sxnative.cpp"), rd(ENG + "/sx.h")))
        return self.cached(out, lambda o: ["g++", "-O1", "-std=c++14", "-fno-pie", "-w", "-I" + ENG, "-c", ENG + "/sxnative.cpp", "-o", o])

    def inc(self):
        return ["-I" + SRC, "-I" + ENG, "-I" + VERIF + "/harness"]

    def obj(self, src, inst, extra=()):
        hh = "" if src.startswith(SRC) or src.startswith(ENG) else h(*[rd(p) for p in sorted(glob.glob(VERIF + "/harness/*.h"))], rd(ENG + "/sx.h"))
        key = h(rd(src), self.headers, hh, inst, IFLAGS if inst else NFLAGS, self.passkey if inst else "", list(extra))
        out = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src), key)
        if inst:
            p = "%s/sxpass-%s.so" % (BUILD, self.passkey)
            return self.cached(out, lambda o: [CLANG] + IFLAGS + list(extra) + self.inc() + ["-fpass-plugin=" + p, "-c", src, "-o", o])
        return self.cached(out, lambda o: ["g++"] + NFLAGS + list(extra) + self.inc() + ["-c", src, "-o", o])

    def wait(self, fs):
        return [f.result() for f in fs]


def undefined(objs):
    """symbols undefined after linking objs together (repo symbols only)"""
    und, df = set(), set()
    for o in objs:
        for l in subprocess.run(["nm", "-P", o], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            t = l.split()
            if len(t) < 2:
                continue
            (und if t[1] in "Uw" and t[1] != "w" else df).add(t[0]) if t[1] != "w" else None
    return und - df


def link(b, hsrc, inst, out, hint, exclude, extra):
    """link harness + needed objects; hint = list of repo sources believed sufficient"""
    allsrc = [s for s in sorted(glob.glob(SRC + "/*.cpp")) if os.path.basename(s) not in exclude]
    hobj = [b.obj(s, inst, extra) for s in hsrc]
    base = [b.rt(), b.obj(ENG + "/sxmodels.cpp", True, ["-fno-builtin"])] if inst else [b.native_rt()]
    cc = "g++"
    tail = (b.zlib + ["-lgmpxx", "-lgmp", "-ldl"]) if inst else []

    def attempt(srcs):
        objs = b.wait([b.obj(s, inst) for s in srcs])
        ar = out + ".%d.a" % os.getpid()
        if os.path.exists(ar):
            os.unlink(ar)
        if objs:
            sh(["ar", "qcs", ar] + objs)
        tmp = out + ".%d.tmp" % os.getpid()
        mp = out + ".%d.map" % os.getpid()
        try:
            sh([cc, "-no-pie", "-o", tmp, "-rdynamic"] + b.wait(hobj) + b.wait(base) + ([ar] if objs else []) + tail + ["-lpthread", "-Wl,-Map," + mp])
            os.rename(tmp, out)
            used = set()
            m = re.search(r"Archive member included.*?\n\n(.*?)\n\n(?:Discarded|Memory|As-needed|There are)", rd(mp).decode(errors="replace"), re.S)
            for x in re.findall(r"\.a\(([^()]+\.cpp)-[0-9a-f]+\.o\)", m.group(1) if m else ""):
                used.add(x)
            return used
        finally:
            for f in (ar, tmp, mp):
                if os.path.exists(f):
                    os.unlink(f)
    hs = [s for s in allsrc if os.path.basename(s) in hint]
    if hs:
        try:
            return attempt(hs)
        except CheckError:
            pass
    return attempt(allsrc)


def directives(srcs):
    d = {"exclude": [], "flags": [], "time": {}, "qt": {}, "thorough-time": {}, "define": []}
    for s in srcs:
        for l in open(s):
            m = re.match(r"//@\s*(\S+):\s*(.*)", l)
            if not m:
                continue
            k, v = m.group(1), m.group(2).split()
            if k in ("exclude", "flags"):
                d[k] += v
            elif k in ("time", "qt", "thorough-time"):
                for x in v:
                    n, _, t = x.rpartition("=")
                    d[k][n or "*"] = float(t)
    return d


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--setup" in sys.argv:
        b = Builder()
        for f in (b.sxpass(), b.rt(), b.native_rt()):
            f.result()
        print("engine builds")
        return 0
    prop = args[0]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    onlyh = None
    if "--harness" in sys.argv:
        onlyh = sys.argv[sys.argv.index("--harness") + 1].split(",")
        args = [a for a in args if a not in onlyh]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    hsrc = sorted(glob.glob("%s/harness/%s*.cpp" % (VERIF, prop)))
    if not hsrc:
        raise CheckError("no harness for " + prop)
    d = directives(hsrc)
    b = Builder()
    hintfile = "%s/hints/%s.txt" % (VERIF, prop)
    hint = set(open(hintfile).read().split()) if os.path.exists(hintfile) else set()
    fpass, frt, fnat = b.sxpass(), b.rt(), b.native_rt()
    # native objects can start before the pass is ready
    for s in hsrc:
        b.obj(s, False, d["flags"])
    for s in hint:
        if os.path.exists(SRC + "/" + s) and s not in d["exclude"]:
            b.obj(SRC + "/" + s, False)
    fpass.result()
    work = "%s/work/%s.%d" % (BUILD, prop, os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    iexe, nexe = work + "/sym", work + "/nat"
    if "--replay-model" in sys.argv:
        model = os.path.abspath(sys.argv[sys.argv.index("--replay-model") + 1])
        link(b, hsrc, False, nexe, hint, d["exclude"], d["flags"])
        r = subprocess.run([nexe, onlyh[0], model], env=dict(os.environ, SX_ECHO="1"), cwd=work)
        shutil.rmtree(work, ignore_errors=True)
        print("exit status %d (0 held, 42 assertion failed, 43 assumption not met)" % r.returncode)
        return r.returncode
    with cf.ThreadPoolExecutor(2) as p:
        f1 = p.submit(link, b, hsrc, True, iexe, hint, d["exclude"], d["flags"])
        f2 = p.submit(link, b, hsrc, False, nexe, hint, d["exclude"], d["flags"])
        used = f1.result() | f2.result()
    if os.environ.get("SX_WRITE_HINTS") and used != hint:
        os.makedirs(VERIF + "/hints", exist_ok=True)
        with open(hintfile, "w") as f:
            f.write("\n".join(sorted(used)) + "\n")
    tb = time.time() - t0
    hl = [l.split("\t")[0] for l in sh([iexe, "--list"]).splitlines()]
    if onlyh:
        hl = [x for x in hl if x in onlyh]
    known = []
    kf = VERIF + "/known_findings.json"
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop and k.get("status") == "known"]
    budget = float(os.environ.get("SX_BUDGET", "1500" if thorough else "420"))
    deadline = t0 + tb + budget
    npar = min(3, len(hl)) or 1

    def run(name):
        left = deadline - time.time()
        tm = d["time"].get(name, d["time"].get("*", 60.0))
        qt = d["qt"].get(name, d["qt"].get("*", 10.0))
        if thorough:
            tm = d["thorough-time"].get(name, d["thorough-time"].get("*", tm * 5))
            qt *= 3
        tm = max(5.0, min(tm, left - 15))
        w = "%s/%s" % (work, name)
        os.makedirs(w)
        cmd = [iexe, "--harness", name, "--out", w + "/out.json", "-j", str(max(2, J // npar + 1)), "--time", str(tm), "--qt", str(qt), "--replay", nexe,
               "--work", w, "--path-time", str(min(tm, 60 if not thorough else 300))]
        for k in known:
            if k.get("harness") == name:
                cmd += ["--known", k["assertion"]]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tm + 90)
        except subprocess.TimeoutExpired:
            return name, None, "engine timeout"
        if os.environ.get("SX_DEBUG"):
            sys.stderr.write(r.stdout)
        if r.returncode or not os.path.exists(w + "/out.json"):
            return name, None, "engine failed rc=%s: %s" % (r.returncode, r.stdout[-2000:])
        return name, json.load(open(w + "/out.json")), ""
    with cf.ThreadPoolExecutor(npar) as p:
        res = list(p.map(run, hl))
    viol, inconcl, errors, knownseen = [], [], [], []
    tot = dict(states=0, transitions=0, traces=0, queries=0, solver_s=0.0, asserts=0, discharged=0, byn=0, paths=0)
    fns, bounds, samples, leaks, notes, perh = set(), [], [], set(), set(), {}
    for name, r, err in res:
        if r is None:
            errors.append("%s: %s" % (name, err))
            continue
        bounds.append("%s [%s]: %s" % (name, "IEEE-754 doubles" if r["mode"] == "ieee" else "doubles as exact reals", r["bounds"]))
        a = r["asserts"]
        seen = sum(x["seen"] for x in a.values())
        disc = sum(x["discharged"] for x in a.values())
        npaths = sum(v for k, v in r["paths"].items() if k not in ("retry",))
        done = r["paths"].get("done", 0)
        tot["paths"] += npaths
        tot["states"] += npaths + r["counts"].get("decisions", 0)
        tot["transitions"] += r["transitions"]
        tot["traces"] += r["traces_ok"]
        tot["queries"] += r["queries"]
        tot["solver_s"] += r["solver_s"]
        tot["asserts"] += seen
        tot["discharged"] += disc
        tot["byn"] += sum(x["by_normal_form"] for x in a.values())
        fns |= set(r["functions"])
        leaks |= set(name + ": " + x for x in r["leaks"])
        notes |= set(r["notes"])
        samples += [name + ": " + s for s in r["samples"][:2]]
        perh[name] = {"paths": r["paths"], "pending": r["pending"], "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall_s"], 2),
                      "assertions": a, "unknown_branches": r["counts"].get("unknown_branches", 0), "infos": r["infos"][:10],
                      "rungs": {k[5:]: v for k, v in r["counts"].items() if k.startswith("rung:")},
                      "reach": {k[6:]: v for k, v in r["counts"].items() if k.startswith("reach:")}}
        for msg, x in a.items():
            if x["unknown"] or x["spurious"]:
                inconcl.append("%s: '%s' undecided on %d of %d occurrences (%d solver-unknown, %d counterexample did not reproduce natively)" % (
                    name, msg, x["unknown"] + x["spurious"], x["seen"], x["unknown"], x["spurious"]))
        for k in ("limit", "killed", "died", "escaped"):
            if r["paths"].get(k):
                inconcl.append("%s: %d paths %s" % (name, r["paths"][k], k))
        if r["pending"] and not r["violations"]:
            inconcl.append("%s: %d path prefixes left unexplored by the time budget" % (name, r["pending"]))
        if seen == 0 and not r["violations"]:
            errors.append("%s: no assertion was reached (paths %s; %s)" % (name, r["paths"], r["infos"][:3]))
        for v in r["violations"]:
            viol.append((name, v))
        for v in r.get("known", []):
            knownseen.append((name, v))
    outdir = VERIF + "/replays"
    code = 0
    printed = set()
    for name, v in knownseen:
        for k in known:
            if k.get("harness") == name and k["assertion"] == v and k["what"] not in printed:
                printed.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for name, v in viol:
        os.makedirs(outdir, exist_ok=True)
        dst = "%s/%s.%s.model" % (outdir, prop, name)
        try:
            body = open(v["model"]).read()
        except OSError:
            body = ""
        if not os.path.exists(dst) or (name, "w") not in printed:
            printed.add((name, "w"))
            with open(dst, "w") as f:
                f.write("# property %s, harness %s, assertion: %s\n# native run: %s (exit %s)\n# replay: tools/replay.sh %s\n" % (prop, name, v["msg"], v["line"], v["rc"], dst))
                f.write(body)
        if code == 0:
            print("VIOLATION property=%s replay=%s" % (prop, dst))
        print("  harness=%s assertion='%s' native: %s" % (name, v["msg"], v["line"]))
        code = 1
    cov = {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"], "samples": samples[:12] or ["-"],
           "paths": tot["paths"], "assertion_occurrences": tot["asserts"], "assertions_discharged": tot["discharged"],
           "discharged_by_normal_form": tot["byn"], "solver_queries": tot["queries"], "solver_seconds": round(tot["solver_s"], 2),
           "functions_encoded": sorted(f for f in fns if not f.startswith("std::") and not f.startswith("__gnu") and "sxh_" not in f)[:400],
           "bounds": bounds, "inconclusive": inconcl, "concretised": sorted(leaks), "notes": sorted(notes), "per_harness": perh,
           "build_s": round(tb, 1)}
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["REAL harnesses treat double arithmetic as exact real arithmetic (libm by axioms); every counterexample is re-run on the native doubles",
                          "encoding is clang-18 -O1 LLVM IR of /repo/Merlin++ with NDEBUG, regenerated on every run", "Z3 5.3 verdicts are trusted for unsat"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d harnesses, %d paths, %d/%d assertions discharged, %d queries, solver %.1fs, build %.1fs, wall %.1fs" % (
        prop, len(hl), tot["paths"], tot["discharged"], tot["asserts"], tot["queries"], tot["solver_s"], tb, time.time() - t0))
    for i in inconcl:
        print("  inconclusive: " + i)
    for i in sorted(leaks):
        print("  concretised: " + i)
    for e in errors:
        print("  ERROR: " + e)
    if not os.environ.get("SX_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    else:
        print("  work dir: " + work)
    if code == 0 and errors:
        code = 2
    return code


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
