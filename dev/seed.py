"""usage: seed.py ID...   regenerates seeded/<ID> from dev/seeds/*.py and verifies build + demo (not the tests) in a scratch copy"""
import glob, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# run in the repository after it was built; exit 0 = behaves as stated
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w @FLAGS@ -DROS_AVAILABLE=0 -DENABLE_ARUCO_TAGS=1 -Iov_core/src -Iov_init/src -Iov_msckf/src -Iov_eval/src \\
  -isystem /usr/include/eigen3 -isystem /usr/include/opencv4 "$D/demo.cpp" @SRC@ -o "$T/demo" @LIB@ \\
  -lopencv_core -lopencv_imgproc -lopencv_features2d -lopencv_video -lopencv_calib3d -lopencv_imgcodecs -lopencv_highgui -lopencv_aruco \\
  -lboost_system -lboost_filesystem -lboost_thread -lboost_date_time -lpthread || exit 3
cd "$T" && timeout 200 ./demo
'''
LIB = {"msckf": '-L_build/ov_msckf -lov_msckf_lib -Wl,-rpath,"$PWD/_build/ov_msckf"', "eval": '-L_build/ov_eval -lov_eval_lib -Wl,-rpath,"$PWD/_build/ov_eval"',
       "core": '-L_build/ov_core -lov_core_lib -Wl,-rpath,"$PWD/_build/ov_core"', "none": ""}
PRIV = '''#include <iostream>
#include <fstream>
#include <sstream>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>
#include <thread>
#include <mutex>
#include <atomic>
#include <functional>
#include <iomanip>
#include <Eigen/Eigen>
#include <opencv2/opencv.hpp>
#include <boost/filesystem.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#define private public
#define protected public
'''


def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main():
    if not os.environ.get("SEED_NS"):
        # everything happens in a scratch copy that is seen as /repo only by this process tree
        os.makedirs(W, exist_ok=True)
        if not os.path.isdir(W + "/repo"):
            sh(f"cp -a /repo {W}/repo")
        sh(f"git -C {W}/repo fetch -q /repo && git -C {W}/repo reset -q --hard FETCH_HEAD")
        if not os.path.isdir(W + "/build"):
            sh(f"cp -a {HERE}/build {W}/build")
        env = dict(os.environ, SEED_NS="1", OVSA_BUILD=W + "/build")
        sys.exit(subprocess.call(["unshare", "-Urm", "bash", "-c", f"mount --bind {W}/repo /repo && bash /opt/vp/build.sh > {W}/b.log 2>&1; exec python3 {' '.join([os.path.abspath(__file__)] + sys.argv[1:])}"], env=env))
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, "dev", "seeds", "*.py"))):
        ns = {"PRIV": PRIV}
        exec(open(f).read(), ns)
        seeds.update(ns["SEEDS"])
    ids = [a for a in sys.argv[1:]] or list(seeds)
    for i in ids:
        s = seeds[i]
        d = os.path.join(HERE, "seeded", i)
        os.makedirs(d, exist_ok=True)
        # the patch, made on /repo itself and undone at once
        files = set()
        try:
            for f, a, b in s["edits"]:
                p = "/repo/" + f
                t = open(p).read()
                if t.count(a) != 1:
                    raise SystemExit(f"{i}: {t.count(a)} matches of {a!r} in {f}")
                open(p, "w").write(t.replace(a, b))
                files.add(f)
            diff = sh("git diff", "/repo").stdout
        finally:
            sh("git checkout -- .", "/repo")
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(s["demo"])
        lib = s.get("lib", "msckf")
        open(d + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", s.get("flags", "")).replace("@SRC@", s.get("src", "")).replace("@LIB@", LIB[lib]))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # demo on the unchanged tree, then with the patch (only the libraries involved are rebuilt)
        r0 = sh(f"bash {d}/demo.sh", "/repo")
        print(i, "clean rc", r0.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else "", flush=True)
        a = sh(f"git apply {d}/patch.diff", "/repo")
        try:
            b = sh("bash /opt/vp/build.sh", "/repo")
            r1 = sh(f"bash {d}/demo.sh", "/repo")
            print(i, "build", b.returncode, "patched rc", r1.returncode, (r1.stdout + r1.stderr)[-200:].replace("\n", " | "), flush=True)
            c = sh(f"python3 sa/check.py {s['property']}", HERE)
            v = [l.strip() for l in c.stdout.splitlines() if ": [" in l]
            print(i, "check rc", c.returncode, (v or c.stdout.splitlines()[-2:])[0][:260] if c.stdout else c.stderr[-200:], flush=True)
        finally:
            sh("git checkout -- .", "/repo")
    sh("bash /opt/vp/build.sh", "/repo")


main()
