#!/usr/bin/env python3
"""mkseed.py SPEC.py: write seeded/<id>/ from a spec (ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO[, FLAGS])."""
import os, sys, json, subprocess, shutil, runpy
PRE = r"""#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <iostream>
#include <limits>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include "Common.h"
#include "MersenneTwister.h"
#include "Heap.h"
#include "Hole.h"
#include "Mesh.h"
#include "LevelSet.h"
#include "Boundary.h"
#include "FastMarchingMethod.h"
#include "InputOutput.h"
#include "Sensitivity.h"
using namespace slsm;
static int bad(const char* what, double a = 0, double b = 0) { printf("FAILED: %s (%.12g, %.12g)\n", what, a, b); exit(1); }
static void need(bool ok, const char* what, double a = 0, double b = 0) { if (!ok) bad(what, a, b); }
template <class F> static void fill(LevelSet& l, F f) { for (unsigned i = 0; i < l.mesh.nNodes; i++) l.signedDistance[i] = f(l.mesh.nodes[i].coord.x, l.mesh.nodes[i].coord.y); }
""".replace("\\\\", "\\")
H = os.path.dirname(os.path.abspath(__file__))
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = os.path.join(H, "..", "seeded", s["ID"]); os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in s["EDITS"]:
        t = files.get(f) or open("/repo/" + f, newline="").read()
        assert t.count(old) == 1, (spec, f, t.count(old), old)
        files[f] = t.replace(old, new)
    for f, t in files.items(): open("/repo/" + f, "w", newline="").write(t)
    diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(s["DEMO"].replace("@PRE", PRE))
    for n, t in s.get("FILES", {}).items(): os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True); open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property's demonstration holds; nonzero: it fails.  Runs in /repo.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
set -e
for f in src/*.cpp; do
  case $f in *Optimise.cpp) %s;; esac
  g++ -std=c++11 -O1 -w %s -Isrc -c "$f" -o "$t/$(basename "$f").o" &
done
g++ -std=c++11 -O1 -w %s -Isrc -I"$here" -c "$here/demo.cpp" -o "$t/demo.o" &
wait
g++ %s "$t"/*.o -o "$t/demo"
cd "$t"
timeout 250 ./demo
''' % (s.get("OPT", "continue"), s.get("FLAGS", ""), s.get("FLAGS", ""), s.get("FLAGS", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["ID"])
