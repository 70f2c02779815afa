#!/usr/bin/env python3
"""Helper for planted bugs (never used by a check).
  seedtool.py make <spec.py>     create seeded/<id>/ from a spec (list SEEDS of dicts) against /repo's HEAD
  seedtool.py verify [id...]     apply each patch to /repo, build, test, run the demo and the property's check, undo
"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")

DEMO = {
 "eigen": "g++ -std=c++17 -O1 -w -isystem /usr/include/eigen3 -I eigen_ext/include -include stdexcept \"$here/demo.cpp\" -o \"$tmp/demo\"",
 "pcl": "g++ -std=c++17 -O1 -w -DPCL_NO_PRECOMPILE -isystem /usr/include/eigen3 -isystem /usr/include/pcl-1.14 -I eigen_ext/include -I eigen_gtsam/include -I pointcloud_tools/include -I serpent/include "
        "-include \"$here/pre.hpp\" \"$here/demo.cpp\" pointcloud_tools/src/point_types.cpp serpent/src/front_end/lidar/registration_covariance.cpp -o \"$tmp/demo\" "
        "-lpcl_registration -lpcl_filters -lpcl_features -lpcl_search -lpcl_kdtree -lpcl_octree -lpcl_sample_consensus -lpcl_common -lflann_cpp -llz4",
 "cv": "g++ -std=c++17 -O1 -w -isystem /usr/include/eigen3 -isystem /usr/include/opencv4 -I serpent/include -include functional -include stdexcept \"$here/demo.cpp\" "
       "serpent/src/front_end/stereo/window_functions.cpp serpent/src/front_end/stereo/stereo_cost_functions.cpp serpent/src/front_end/stereo/match_filters.cpp "
       "serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp -o \"$tmp/demo\" -lopencv_core",
}
PRE = "#include <cmath>\n#include <memory>\n#include <stdexcept>\n#include <string>\n#include <vector>\nnamespace boost { using std::make_shared; }\n"


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        assert not sh("git", "-C", REPO, "status", "--porcelain").stdout.strip(), "repo dirty"
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                n = s.get("occurrence", None)
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git", "-C", REPO, "diff").stdout)
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        if "demo" in s:
            open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip())
        if s["kind"] == "pcl":
            open(os.path.join(d, "pre.hpp"), "w").write(PRE)
        if s.get("stubs"):
            sh("tar", "czf", os.path.join(d, "stubs.tgz"), "--exclude=__pycache__", "-C", HERE, "shim")
        for fn, content in s.get("files", {}).items():
            open(os.path.join(d, fn), "w").write(content)
        cmd = DEMO.get(s["kind"], s.get("build", ""))
        open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n# cwd: the repository. Exit 0 when the behaviour is right.\nset -e\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\n"
            "tmp=$(mktemp -d)\ntrap 'rm -rf \"$tmp\"' EXIT\n" + cmd + "\ncd \"$tmp\"\n./demo\n")
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", s["id"])


def verify(ids):
    base = json.load(open("/opt/vp/BASELINE.json"))
    ok = True
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        demo_dir = tempfile.mkdtemp()
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), demo_dir)
        demo = os.path.join(demo_dir, "demo.sh")
        res = {}
        r = sh("bash", demo, cwd=REPO); res["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        a = sh("git", "-C", REPO, "apply", os.path.join(d, "patch.diff"))
        try:
            res["applies"] = a.returncode
            t = sh("bash", "/opt/vp/test.sh", "/tmp/seed-test.json")
            j = json.load(open("/tmp/seed-test.json"))
            res["tests_passed"] = len(j["passed"]); res["tests_failed"] = len(j["failed"])
            r = sh("bash", demo, cwd=REPO); res["demo_bug"] = r.returncode
            t0 = time.time()
            c = sh("python3", os.path.join(HERE, "run.py"), meta["property"], cwd=HERE)
            res["check"] = c.returncode
            res["caught"] = ("VIOLATION property=%s " % meta["property"]) in c.stdout
            res["s"] = round(time.time() - t0)
            keys = [l.split()[1] for l in c.stdout.splitlines() if l.startswith("[" + meta["property"])]
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
            shutil.rmtree(demo_dir)
        good = res["demo_clean"] == 0 and res["applies"] == 0 and res["tests_passed"] == 46 and res["demo_bug"] != 0
        print(i, meta["property"], "COUNTS" if good else "INVALID", "CAUGHT" if res["caught"] else "MISSED", res, keys[:4], flush=True)
    sh("bash", "/opt/vp/build.sh")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        verify(sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, "seeded"))))
