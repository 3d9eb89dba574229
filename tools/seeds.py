#!/usr/bin/env python3
"""Planted bugs.  tools/seedspecs/*.py each define SEEDS, a list of dicts:
  id, property, edits=[(file, old, new)], units=[...], demo="C++ main", flags=[...], san=True/False, needs, breaks
  make [ID...]       write /verif/seeded/<id>/
  try  [ID...]       demo without and with the change, then the property's check against a changed copy
"""
import difflib, glob, json, os, re, runpy, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
REPO = "/repo"
BASE = "utils log active error error_categories config crypto identity encode data_types/data".split()

SH = r'''#!/bin/bash
# Builds demo.cc against the tree in the current directory; exit 0 when the property holds.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -r "$T"' EXIT
F="-std=c++17 -w -include $D/shim/verif_prefix.h -I$D/shim -I$R/include -I$R/src -DAPPLICATION_VERSION_MAJOR=0 -DAPPLICATION_VERSION_MINOR=0 -DAPPLICATION_VERSION_PATCH=0
 -DTARGET_PLATFORM=Linux -DTARGET_ARCHITECTURE=x86_64 -DTESTING -DCOMPANY_NAME=MaidSafe -DAPPLICATION_NAME=Common -DBOOST_FILESYSTEM_NO_DEPRECATED
 -DBOOST_FILESYSTEM_VERSION=3 -DBOOST_THREAD_VERSION=4 -DBOOST_RESULT_OF_USE_DECLTYPE -D_FILE_OFFSET_BITS=64 -DHAVE_PTHREAD -DMAIDSAFE_LINUX @LOG@"
for x in MOVE STD_ARRAY STD_ATOMIC STD_SHARED_PTR STD_CHRONO STD_SYSTEM_ERROR VARIADIC_TEMPLATES; do F="$F -DASIO_HAS_$x -DBOOST_ASIO_HAS_$x"; done
F="$F @FLAGS@"
pids=()
n=0
for s in $D/demo.cc @UNITS@; do
  case $s in /*) ;; *) s=$R/src/maidsafe/common/$s.cc;; esac
  g++ $F -c "$s" -o "$T/$n.o" & pids+=($!)
  n=$((n+1))
done
for p in "${pids[@]}"; do wait $p || { echo "build failed"; exit 98; }; done
g++ $F -rdynamic "$T"/*.o -o "$T/demo" -lboost_chrono -lboost_date_time -lboost_filesystem -lboost_locale -lboost_regex -lboost_system -lboost_thread -lboost_program_options -lcryptopp -lsqlite3 -lpthread -lrt -ldl -lutil @LINK@ || exit 97
cd "$T" && timeout @TIMEOUT@ ./demo
rc=$?
echo "demo exit $rc"
exit $rc
'''

def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools/seedspecs/*.py"))):
        for s in runpy.run_path(f)["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out

def make(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    patch = ""
    files = {}
    for f, old, new in s["edits"]:
        if f not in files:
            files[f] = [open(os.path.join(REPO, f)).read()] * 2
        assert files[f][1].count(old) == 1, (s["id"], f, files[f][1].count(old), old)
        files[f][1] = files[f][1].replace(old, new)
    for f, (a, b) in files.items():
        patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    flags = s.get("flags", "")
    flags = ("-O1 -g1 " if s.get("opt", True) else "") + flags
    sh = SH.replace("@FLAGS@", flags).replace("@UNITS@", " ".join(dict.fromkeys(s.get("units", [])))).replace("@TIMEOUT@", str(s.get("timeout", 120)))
    sh = sh.replace("@LINK@", s.get("link", ""))
    sh = sh.replace("@LOG@", "-DUSE_LOGGING=%d" % (1 if s.get("logging") else 0))
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    pre = "#include <cstdio>\n#include <cstdlib>\n#define NEED(c) do { if (!(c)) { std::printf(\"broken at line %d: %s\\n\", __LINE__, #c); std::fflush(stdout); std::_Exit(1); } } while (0)\n"
    open(os.path.join(d, "demo.cc"), "w").write(pre + s["demo"].lstrip("\n"))
    if os.path.exists(os.path.join(d, "shim")):
        shutil.rmtree(os.path.join(d, "shim"))
    shutil.copytree(os.path.join(V, "shim"), os.path.join(d, "shim"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)

BASECOMMIT = "bc744af"
def not_original(s):
    """changed lines which the repairs committed to /repo added (a planted bug must change original lines)"""
    bad = []
    for f, old, new in s["edits"]:
        t = open(os.path.join(REPO, f)).read()
        a, b = t.splitlines(), t.replace(old, new).splitlines()
        gone = [i for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, False).get_opcodes() if tag != "equal" for i in range(i1, max(i2, i1 + 1))]
        bl = subprocess.run(["git", "-C", REPO, "blame", "-s", f], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        bad += [bl[i] for i in gone if i < len(bl) and not bl[i].lstrip("^").startswith(BASECOMMIT)]
    return bad

def record(i, r):
    p = os.path.join(V, "tools/seedresults.json")
    d = json.load(open(p)) if os.path.exists(p) else {}
    d[i] = r
    json.dump(d, open(p, "w"), indent=1, sort_keys=True)

def table():
    p = os.path.join(V, "tools/seedresults.json")
    d = json.load(open(p)) if os.path.exists(p) else {}
    S = specs()
    rows = ["| planted bug | check | verdict | what it breaks | reported as |", "|---|---|---|---|---|"]
    for i in sorted(S):
        if not os.path.exists(os.path.join(V, "seeded", i)): continue
        r = d.get(i, {})
        rows.append("| %s | %s | %s | %s | %s |" % (i, S[i]["property"], r.get("verdict", "?"), S[i]["breaks"].replace("|", "/"), ", ".join("`%s`" % k for k in r.get("keys", [])[:3])))
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    s = re.sub(r"<!-- seeds -->.*?(<!-- /seeds -->|$)", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
    open(p, "w").write(s)

def attempt(s, check=True):
    make(s)
    for l in not_original(s): print(s["id"], "NOT ORIGINAL:", l, flush=True)
    d = os.path.join(V, "seeded", s["id"])
    c = "/tmp/seedtree/%s" % s["id"]
    if os.path.exists(c): shutil.rmtree(c)
    os.makedirs(os.path.dirname(c), exist_ok=True)
    subprocess.run(["git", "clone", "-q", REPO, c], check=True)
    try:
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=c, check=True)
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        demo_ok = r0.returncode == 0 and r1.returncode not in (0, 97, 98, 99)
        if not demo_ok:
            print(s["id"], "DEMO BAD:", r0.returncode, r1.returncode, r0.stdout[-1500:] if r0.returncode else "", r1.stdout[-1500:], flush=True)
            if r1.returncode in (97, 98): return
        if check:
            env = dict(os.environ, VERIF_REPO=c, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE="/tmp/seedtree/ev")
            t = time.time()
            r2 = subprocess.run([sys.executable, "run.py", "check", s["property"]], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r2.stdout.splitlines() if l.startswith("VIOLATION")]
            keys = sorted(set(re.findall(r"key=(\S+)", r2.stdout)))[:6]
            print("%-26s demo %s  check rc=%d %s %.0fs %s" % (s["id"], "ok" if demo_ok else "BAD", r2.returncode, "CAUGHT" if r2.returncode == 1 and v else "MISSED", time.time() - t, keys), flush=True)
            record(s["id"], {"verdict": "caught" if r2.returncode == 1 and v else "missed", "demo": demo_ok, "keys": keys})
            if r2.returncode not in (0, 1): print(r2.stdout[-1500:], flush=True)
        else:
            print(s["id"], "demo", "ok" if demo_ok else "BAD", flush=True)
    finally:
        shutil.rmtree(c)

if __name__ == "__main__":
    if sys.argv[1] == "table": table(); sys.exit()
    S = specs()
    ids = sys.argv[2:] or sorted(S)
    ids = [i for i in S if any(i == x or i.startswith(x + "-") for x in ids)] if sys.argv[2:] else ids
    for i in ids:
        if sys.argv[1] == "make": make(S[i])
        elif sys.argv[1] == "blame": print("\n".join([i] + not_original(S[i])))
        elif sys.argv[1] == "demo": attempt(S[i], check=False)
        else: attempt(S[i])
