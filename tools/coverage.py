#!/usr/bin/env python3
"""Which lines of /repo the checks' workloads execute (a development aid; no check uses it).
  tools/coverage.py OUTDIR [ID...]   builds each harness with --coverage, runs its quick workload, writes
  OUTDIR/<id>.json ({file: {line: count}}) and prints the lines no harness executed."""
import glob, gzip, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
run.MODES["cov"] = "-O0 -g1 --coverage -fprofile-update=atomic -DVERIF_COV".split()
out = sys.argv[1]
ids = sys.argv[2:] or sorted(run.CHECKS)
os.makedirs(out, exist_ok=True)
for pid in ids:
    cfg = dict(run.CHECKS[pid])
    cfg["link"] = cfg.get("link", []) + ["-Wl,-u,__gcov_dump"]
    w = os.path.join("/tmp/cov_work", pid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        exe = run.build(cfg, ["cov"], w)["cov"]
    except run.NoAnswer as e:
        print(pid, "no build", str(e)[:300]); continue
    env = run.san_env("plain", cfg, w)
    ps = []
    for sh in range(8):
        sc = os.path.join(w, "s%d" % sh); os.makedirs(sc)
        e = dict(env, TMPDIR=sc, HOME=sc)
        ps.append(subprocess.Popen(["timeout", "-k", "5", "240", exe, "--seed", "1", "--shard", str(sh), "--shards", "8", "--events", sc + "/e", "--state", sc + "/st",
            "--hashes", sc + "/h", "--scratch", sc], cwd=sc, env=e, stdout=open(sc + "/out", "w"), stderr=subprocess.STDOUT))
    rcs = [p.wait() for p in ps]
    d = os.path.dirname(exe)
    gcda = glob.glob(d + "/*.gcda")
    subprocess.run(["gcov", "-j", "-i"] + gcda, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    res = {}
    for g in glob.glob(d + "/*.gcov.json.gz"):
        for f in json.load(gzip.open(g))["files"]:
            if not f["file"].startswith(run.REPO + "/"): continue
            r = res.setdefault(os.path.relpath(f["file"], run.REPO), {})
            for l in f["lines"]:
                r[l["line_number"]] = r.get(l["line_number"], 0) + l["count"]
    json.dump(res, open(os.path.join(out, pid + ".json"), "w"))
    print(pid, rcs, len(gcda), sum(1 for f in res.values() for c in f.values() if c), flush=True)
    shutil.rmtree(w, ignore_errors=True)
tot = {}
for f in glob.glob(out + "/*.json"):
    for k, v in json.load(open(f)).items():
        for l, c in v.items():
            t = tot.setdefault(k, {}); t[int(l)] = t.get(int(l), 0) + c
with open(os.path.join(out, "uncovered.txt"), "w") as o:
    for k in sorted(tot):
        src = open(os.path.join(run.REPO, k)).read().splitlines()
        miss = [l for l in sorted(tot[k]) if not tot[k][l]]
        o.write("== %s %d/%d\n" % (k, len(tot[k]) - len(miss), len(tot[k])))
        for l in miss:
            if l <= len(src): o.write("  %d: %s\n" % (l, src[l - 1]))
