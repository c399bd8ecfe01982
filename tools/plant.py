#!/usr/bin/env python3
"""Plants the bugs described in tools/seedspec.py:  plant.py [--new] [ID...]

For each: makes seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}, confirms in a scratch copy that the
changed tree builds, passes the stable tests, that the demo tells the two trees apart, and records whether
the check of the property reports it (seeded_results.json)."""
import sys, os, json, subprocess, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
S = "/tmp/plant"
R = S + "/repo"
DEMO = """#!/bin/bash
# run in the repository after the build: exit 0 if the property holds in this example
d=$(dirname "$(readlink -f "$0")"); t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w -fno-access-control -IMerlin++ "$d/demo.cpp" -o "$t/demo" _build/libmerlin++.so -Wl,-rpath,"$PWD/_build" || exit 2
cd "$t" && ./demo
"""
HEAD = "#include <cstdio>\n#include <cmath>\n#include <cstdlib>\nstatic int bad = 0;\n#define CHECK(c) do { if(!(c)) { printf(\"failed: %s\\n\", #c); bad = 1; } } while(0)\nstatic bool near_(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t; }\n"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    e = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0="safe.directory", GIT_CONFIG_VALUE_0="*")
    return sh("cmake -S {0} -B {0}/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Release -DBUILD_TESTING=ON -DENABLE_EXAMPLES=ON -DENABLE_DEVTOOLS=ON -DENABLE_USER_RUNS=ON -DBUILD_DOCUMENTATION=OFF -DPython3_EXECUTABLE=/usr/bin/python3 -DTEST_TIMEOUT=300 && ninja -C {0}/_build".format(R), env=e)


def setup():
    if not os.path.exists(R):
        os.makedirs(S, exist_ok=True)
        sh("git clone -q " + os.environ.get("SX_PLANT_FROM", "/repo") + " " + R)
    sh("cd %s && git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD && git pull -q" % R)


def stable():
    base = json.load(open("/opt/vp/BASELINE.json"))
    ids = base.get("stable") or base.get("passed") or base.get("tests")
    b = R + "/_build/DeveloperTools/CodeTesting"
    sh("rm -rf %s/data %s/outputs" % (b, b))
    build()
    sh(r"""sed -i -E -e 's#("[^"]*/random_test\.py") "--exe"#\1 "1" "--exe"#' -e 's#("[^"]*/(cu50_test|lhc_collimation_test)\.py") "0"#\1 "1"#' %s/CTestTestfile.cmake""" % b)
    x = R + "/_build/ctest-junit.xml"
    sh("ctest --test-dir %s/_build -j8 --output-junit %s" % (R, x))
    sh("python3 /opt/vp/results.py %s/res.json junit:%s" % (S, x))
    p = json.load(open(S + "/res.json"))["passed"]
    return [i for i in ids if i not in p]


def main():
    import seedspec
    only = [a for a in sys.argv[1:] if not a.startswith("--")]
    resf = V + "/seeded_results.json"
    res = json.load(open(resf)) if os.path.exists(resf) else {}
    checkonly = "--check" in sys.argv
    for s in seedspec.SEEDS:
        id = s["id"]
        if only and id not in only and s["property"] not in only:
            continue
        if not only and "--new" in sys.argv and id in res and os.path.exists("%s/seeded/%s/patch.diff" % (V, id)):
            continue
        setup()
        d = "%s/seeded/%s" % (V, id)
        os.makedirs(d, exist_ok=True)
        ok = True
        for f, old, new in s["edits"]:
            p = R + "/Merlin++/" + f
            t = open(p).read()
            if t.count(old) < 1 or (t.count(old) > 1 and not s.get("first")):
                print(id, "edit does not apply:", f, t.count(old))
                ok = False
                break
            open(p, "w").write(t.replace(old, new, 1))
        if not ok:
            continue
        open(d + "/patch.diff", "w").write(sh("cd %s && git diff" % R).stdout)
        open(d + "/demo.cpp", "w").write(HEAD + s["demo"])
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = res.setdefault(id, {})
        if not checkonly:
            a = build()
            if a.returncode:
                print(id, "does not build", a.stdout[-1500:])
                continue
            miss = stable()
            if miss:
                print(id, "tests fail:", miss)
                r["status"] = "existing tests catch it"
                json.dump(res, open(resf, "w"), indent=1)
                shutil.rmtree(d)
                continue
            x = sh("bash %s/demo.sh" % d, cwd=R)
            sh("cd %s && git checkout -q -- ." % R)
            build()
            y = sh("bash %s/demo.sh" % d, cwd=R)
            if x.returncode == 0 or y.returncode != 0 or x.returncode == 2:
                print(id, "demo wrong: patched rc=%d, clean rc=%d\n%s\n%s" % (x.returncode, y.returncode, x.stdout[-500:], y.stdout[-500:]))
                continue
            sh("cd %s && git apply %s/patch.diff" % (R, d))
        c = sh("python3 %s/tools/check.py %s" % (V, s["property"]), env=dict(os.environ, SX_REPO=R, SX_EVIDENCE="/tmp/plant"))
        caught = c.returncode == 1 and ("VIOLATION property=" + s["property"]) in c.stdout
        r.update(property=s["property"], what=s["breaks"], status="caught" if caught else "missed (rc %d)" % c.returncode)
        m = re.findall(r"harness=(\S+) assertion='([^']*)'", c.stdout)
        r["by"] = "%s: %s" % m[0] if m else ""
        print(id, r["status"], r["by"])
        if not caught:
            print(c.stdout[-800:])
        json.dump(res, open(resf, "w"), indent=1)
        sh("cd %s && git checkout -q -- ." % R)


main()
