#!/usr/bin/env python3
"""Builds the harness of a property against /repo's working tree, runs it under the configured
instrumentation, decides, and writes evidence/<id>.json.

  run.py check C01 [--tier quick|thorough]     exit 0 held / exit 1 VIOLATION / exit 2 no answer
  run.py replay <file>                         re-runs the case a VIOLATION line points to
"""
import argparse, concurrent.futures, fnmatch, glob, hashlib, json, mmap, os, re, shutil, signal, struct
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa

JOBS = os.cpu_count() or 4
LIB = os.path.join(REPO, "src/maidsafe/common")
DEFS = """APPLICATION_VERSION_MAJOR=0 APPLICATION_VERSION_MINOR=0 APPLICATION_VERSION_PATCH=0
TARGET_PLATFORM=Linux TARGET_ARCHITECTURE=x86_64 TESTING COMPANY_NAME=MaidSafe APPLICATION_NAME=Common
BOOST_FILESYSTEM_NO_DEPRECATED BOOST_FILESYSTEM_VERSION=3 BOOST_THREAD_VERSION=4
BOOST_RESULT_OF_USE_DECLTYPE _FILE_OFFSET_BITS=64 HAVE_PTHREAD MAIDSAFE_LINUX""".split()
for x in "MOVE STD_ARRAY STD_ATOMIC STD_SHARED_PTR STD_CHRONO STD_SYSTEM_ERROR VARIADIC_TEMPLATES".split():
    DEFS += ["ASIO_HAS_" + x, "BOOST_ASIO_HAS_" + x]
LIBS = ("-lboost_chrono -lboost_date_time -lboost_filesystem -lboost_locale -lboost_regex -lboost_system "
        "-lboost_thread -lboost_program_options -lcryptopp -lsqlite3 -lpthread -lrt -ldl").split()
MODES = {
    # address + undefined behaviour + libstdc++ assertions + the code's own asserts
    "asan": ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr "
             "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS").split(),
    "asan_nd": ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr "
                "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -DNDEBUG").split(),
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread".split(),
    "plain": "-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS".split(),
}
WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock", "_ZNSt18condition_variable10notify_oneEv",
         "_ZNSt18condition_variable10notify_allEv",
         "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"]


def log(*a):
    print(*a, flush=True)


class NoAnswer(Exception):
    pass


def common_flags(cfg, mode):
    # -O levels and instrumentation by mode; extra per-check defines
    f = ["-std=c++17", "-w", "-include", os.path.join(VERIF, "shim/verif_prefix.h"),
         "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(REPO, "include"),
         "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness")]
    f += ["-D" + d for d in DEFS]
    f += ["-DUSE_LOGGING=%d" % (1 if cfg.get("logging") else 0)]
    f += ["-DVH_MODE_" + mode.upper()]
    f += cfg.get("flags", [])
    return f + MODES[mode]


def lib_sources():
    out = {}
    for root, dirs, files in os.walk(LIB):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "tools"))
        for fn in sorted(files):
            if fn.endswith(".cc") or fn.endswith(".cpp") or fn.endswith(".cxx"):
                p = os.path.join(root, fn)
                out[os.path.relpath(p, LIB)[:-3] if fn.endswith(".cc") else os.path.relpath(p, LIB)] = p
    return out


def known_units():
    with open(os.path.join(VERIF, "units.txt")) as f:
        return set(f.read().split())


def compile_one(args):
    src, obj, flags = args
    p = subprocess.run(["g++"] + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return src, obj, p.returncode, p.stdout


def build(cfg, modes, workdir):
    """Compiles harness + needed library units for each mode; returns {mode: executable}."""
    srcs = lib_sources()
    units = [u for u in cfg["units"] if u in srcs]
    # a unit the tree did not have when this check was written may hold code moved out of one it names
    new = [u for u in srcs if u not in known_units()]
    exes, jobs, plan = {}, [], {}
    for mode in modes:
        d = os.path.join(workdir, mode)
        os.makedirs(d, exist_ok=True)
        flags = common_flags(cfg, mode)
        hsrc = [os.path.join(VERIF, "harness", h) for h in [cfg["harness"]] + cfg.get("extra", [])]
        hsrc.append(os.path.join(VERIF, "harness/vh.cc"))
        delay = cfg.get("delay") and mode in cfg.get("delay_modes", modes)
        if delay:
            hsrc.append(os.path.join(VERIF, "harness/delay.cc"))
        hobjs, lobjs = [], []
        for s in hsrc:
            o = os.path.join(d, "h_" + os.path.basename(s) + ".o")
            hobjs.append(o)
            jobs.append((s, o, flags))
        for u in units + new:
            o = os.path.join(d, "l_" + u.replace("/", "_") + ".o")
            lobjs.append(o)
            jobs.append((srcs[u], o, flags))
        plan[mode] = (d, flags, hobjs, lobjs, delay)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10 ** 6 if "harness" in j[0] else 0))
    failed_new = set()
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for src, obj, rc, out in ex.map(compile_one, jobs):
            if rc != 0:
                if any(src == srcs[u] for u in new):
                    failed_new.add(obj)
                    continue
                raise NoAnswer("compiling %s failed:\n%s" % (src, out[-3000:]))
    for mode, (d, flags, hobjs, lobjs, delay) in plan.items():
        lobjs = [o for o in lobjs if o not in failed_new]
        exe = os.path.join(d, "harness")

        def link(objs):
            lib = os.path.join(d, "libunits.a")
            if os.path.exists(lib):
                os.unlink(lib)
            if objs:
                subprocess.run(["ar", "rcs", lib] + objs, check=True)
            cmd = ["g++"] + MODES[mode] + hobjs + ([lib] if objs else []) + cfg.get("link", [])
            if delay:
                cmd += ["-Wl,--wrap=" + w for w in WRAPS]
            cmd += ["-rdynamic", "-o", exe] + LIBS
            return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        p = link(lobjs)
        if p.returncode != 0 and "undefined reference" in p.stdout:
            # the tree moved a definition elsewhere: use the whole library
            log("note: whole library needed for", ", ".join(sorted(set(re.findall(
                r"undefined reference to [`'](.*?)'", p.stdout))))[:300])
            rest = [u for u in srcs if u not in units and u not in new]
            more = []
            js = []
            for u in rest:
                o = os.path.join(d, "l_" + u.replace("/", "_") + ".o")
                js.append((srcs[u], o, flags))
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                for src, obj, rc, out in ex.map(compile_one, js):
                    if rc == 0:
                        more.append(obj)
            p = link(lobjs + more)
        if p.returncode != 0:
            raise NoAnswer("linking failed:\n" + p.stdout[-3000:])
        exes[mode] = exe
    return exes


# ----------------------------------------------------------------------------- sanitizer reports
FRAME = re.compile(r"^\s*#\d+ (?:0x[0-9a-f]+ (?:in )?)?(.+?) (\S+?):(\d+)(?::\d+)?(?: \(.*\))?$")


def frames(text):
    out = []
    for line in text.splitlines():
        m = FRAME.match(line)
        if m:
            out.append((re.sub(r"<.*>", "", m.group(1)).split("(")[0].strip(), m.group(2)))
    return out


def repo_frame(fr):
    for fn, path in fr:
        if path.startswith(REPO + "/"):
            return fn + "@" + os.path.basename(path)
    return fr[0][0] if fr else "?"


def crash_key(text, status):
    """(key, excerpt) describing why a harness process died."""
    m = re.search(r"ERROR: AddressSanitizer:? (\S+)", text)
    if m:
        kind = m.group(1).rstrip(":")
        tail = text[m.start():]
        if kind in ("attempting", "failed", "requested"):
            kind = re.sub(r"\W+", "-", tail.split("AddressSanitizer:")[1].strip()[:30])
        return "asan:%s:%s" % (kind, repo_frame(frames(tail[:20000]))), tail[:3000]
    m = re.search(r"ERROR: LeakSanitizer: .*", text)
    if m:
        tail = text[m.start():]
        return "leak:%s" % repo_frame(frames(tail[:20000])), tail[:3000]
    m = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", text, re.M)
    if m:
        tail = text[m.start():]
        what = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(3))[:60]
        return "ubsan:%s:%s:%s" % (os.path.basename(m.group(1)), repo_frame(frames(tail[:8000])), what), tail[:3000]
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", text)
    if m:
        tail = text[m.start():]
        end = tail.find("==================", 20)
        tail = tail[:end if end > 0 else 12000]
        parts = re.split(r"\n\s*\n", tail)
        tops = []
        for part in parts[:2]:
            f = frames(part)
            if f:
                tops.append(repo_frame(f))
        return "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), "|".join(sorted(set(tops)))), tail[:6000]
    m = re.search(r"ERROR: ThreadSanitizer: (\S+)", text)
    if m:
        tail = text[m.start():]
        return "tsan:%s:%s" % (m.group(1), repo_frame(frames(tail[:8000]))), tail[:3000]
    m = re.search(r"(\S+?):\d+: (.*?): Assertion [`'](.*)' failed", text)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)), m.group(3)[:80]), text[-3000:]
    m = re.search(r"terminate called.*", text)
    if m:
        what = re.search(r"what\(\):\s*(.*)", text)
        return "terminate:%s" % (re.sub(r"\W+", "-", what.group(1))[:40] if what else "exception"), text[-3000:]
    if status < 0:
        return "signal:%s" % signal.Signals(-status).name, text[-3000:]
    return "exit:%d" % status, text[-3000:]


# ----------------------------------------------------------------------------- running
def san_env(mode, cfg, logp):
    env = dict(os.environ)
    opts = cfg.get("san_opts", {})
    env["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=%d:detect_stack_use_after_return=1:"
                           "allocator_may_return_null=1:max_malloc_fill_size=4096:strict_init_order=0:"
                           "detect_container_overflow=1:handle_abort=0:quarantine_size_mb=64" % (1 if cfg.get("leaks") else 0))
    if opts.get("asan"):
        env["ASAN_OPTIONS"] += ":" + opts["asan"]
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    supp = os.path.join(VERIF, "harness/tsan.supp")
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4:suppressions=" + supp
    if opts.get("tsan"):
        env["TSAN_OPTIONS"] += ":" + opts["tsan"]
    env["LSAN_OPTIONS"] = "exitcode=99"
    env["LC_ALL"] = "C"
    env.update(cfg.get("env", {}))
    return env


def read_state(path):
    try:
        with open(path, "rb") as f:
            b = f.read(48)
        if len(b) < 48:
            return None
        return struct.unpack("6Q", b)
    except OSError:
        return None


def switches(pid):
    tot = {}
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/status" % (pid, t)) as f:
                s = f.read()
            tot[t] = sum(int(x) for x in re.findall(r"ctxt_switches:\s+(\d+)", s))
    except OSError:
        pass
    return tot


STOP_AFTER = 40  # quick runs end this long after the first violation


def run_process(cmd, env, state, outp, cwd, limit, beat_limit, res=None, thorough=True):
    """Returns (status, verdict) with verdict in None, 'hang', 'deadlock', 'budget', 'enough'."""
    with open(outp, "wb") as out:
        p = subprocess.Popen(cmd, env=env, stdout=out, stderr=subprocess.STDOUT, cwd=cwd,
                             stdin=subprocess.DEVNULL, start_new_session=True)
    start = time.time()
    last, last_t, sw, still = None, time.time(), None, 0
    verdict = None
    nxt = 0
    wait = 0.005
    while True:
        rc = p.poll()
        if rc is not None:
            break
        now = time.time()
        if now >= nxt:
            nxt = now + 1.0
            st = read_state(state)
            beat = st[3] if st else None
            if beat != last:
                last, last_t, still, sw = beat, now, 0, None
            elif now - last_t > 15:
                cur = switches(p.pid)
                changed = sum(1 for t in cur if sw is None or cur.get(t) != sw.get(t))
                # one thread may tick: the race detector's own background thread
                still = still + 1 if sw is not None and changed <= 1 else 0
                sw = cur
                if still >= 10:
                    verdict = "deadlock"
            if now - last_t > beat_limit:
                verdict = verdict or "hang"
            if now - start > limit:
                verdict = verdict or "budget"
            if res is not None and not thorough:
                if res.first is None and ((st and st[0] == 0x5648 and st[5]) or res.violations):
                    res.first = now
                if res.first is not None and now - res.first > STOP_AFTER:
                    verdict = verdict or "enough"
            if verdict:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        time.sleep(wait)
        wait = min(wait * 1.5, 0.1)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    return p.returncode, verdict


class Result:
    def __init__(self):
        self.cases = self.evals = 0
        self.counters, self.samples, self.hashes = {}, [], set()
        self.violations = {}      # key -> dict
        self.stuck = False
        self.inconclusive = []
        self.deadline_hit = False
        self.first = None         # when the first violation was seen
        self.harness_error = None

    def violate(self, key, mode, group, case, detail, seed, thorough):
        v = self.violations.setdefault(key, {"key": key, "mode": mode, "group": group, "case": case,
                                             "detail": detail, "seed": seed, "thorough": thorough, "count": 0})
        v["count"] += 1


def load_events(path, res, mode, seed, thorough):
    try:
        with open(path) as f:
            lines = f.read().splitlines()
    except OSError:
        return
    for ln in lines:
        try:
            e = json.loads(ln)
        except ValueError:
            continue
        if e["t"] == "violation":
            res.violate(e["key"], mode, e["group"], e["case"], e["detail"], seed, thorough)
        elif e["t"] == "summary":
            res.cases += e["cases"]
            res.evals += e["evals"]
            for k, v in e["counters"].items():
                res.counters[k] = res.counters.get(k, 0) + v
            res.samples += ["[%s] %s" % (mode, s) for s in e["samples"]]
        elif e["t"] == "harness_error":
            res.harness_error = e["detail"]


def groups_of(exe, env):
    p = subprocess.run([exe, "--list"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    g = [l.split()[0] for l in p.stdout.splitlines() if len(l.split()) == 3]
    if not g:
        raise NoAnswer("harness lists no groups:\n" + p.stdout[-2000:])
    return g


def run_shard(pid, cfg, mode, exe, seed, thorough, shard, shards, work, res_lock, res, deadline):
    beat_limit = cfg.get("beat_limit", 120)
    d = os.path.join(work, "%s_%d" % (mode, shard))
    os.makedirs(d, exist_ok=True)
    events, state, hashes = (os.path.join(d, x) for x in ("events", "state", "hashes"))
    env = san_env(mode, cfg, d)
    glist = None
    resume, restarts = None, 0
    while True:
        scratch = tempfile.mkdtemp(prefix="vh", dir=d)
        os.chmod(scratch, 0o777)
        env["TMPDIR"] = scratch
        env["HOME"] = scratch
        cmd = [exe, "--seed", str(seed), "--shard", str(shard), "--shards", str(shards), "--events", events,
               "--state", state, "--hashes", hashes, "--scratch", scratch,
               "--scale", str(cfg.get("scale", {}).get(mode, 100))]
        if thorough:
            cmd.append("--thorough")
        if resume:
            cmd += ["--resume", str(resume[0]), str(resume[1])]
        if os.path.exists(state):
            os.unlink(state)
        outp = os.path.join(d, "out%d" % restarts)
        limit = max(5, deadline - time.time())
        status, verdict = run_process(cmd, env, state, outp, scratch, limit, beat_limit, res, thorough)
        shutil.rmtree(scratch, ignore_errors=True)
        st = read_state(state)
        if verdict in ("budget", "enough"):
            with res_lock:
                res.deadline_hit = res.deadline_hit or verdict == "budget"
            return events, hashes
        if status == 0 and verdict is None and st and st[4] == 1:
            return events, hashes
        if status == 77:
            return events, hashes
        with open(outp, "rb") as f:
            text = f.read()[-400000:].decode("utf8", "replace")
        if glist is None:
            glist = groups_of(exe, env)
        gi, ci = (st[1], st[2]) if st and st[0] == 0x5648 else (0, 0)
        grp = glist[gi] if gi < len(glist) else "?"
        if st and st[4] == 1 and status != 0 and verdict is None:
            grp = "exit"
        if verdict is None:
            key, excerpt = crash_key(text, status)
            with res_lock:
                res.violate(key if key.split(":")[0] not in ("signal", "exit", "terminate") else key + ":" + grp,
                            mode, grp, ci, excerpt, seed, thorough)
        else:
            # A watchdog alone decides nothing: the case is run again by itself.
            again = verdict == "deadlock"
            if not again:
                sc2 = tempfile.mkdtemp(prefix="vh", dir=d)
                cmd2 = [exe, "--seed", str(seed), "--group", grp, "--case", str(ci), "--events", events,
                        "--state", state + "2", "--scratch", sc2] + (["--thorough"] if thorough else [])
                status2, verdict2 = run_process(cmd2, env, state + "2", outp + ".again", sc2, 400, beat_limit * 1.5)
                again = verdict2 is not None
                shutil.rmtree(sc2, ignore_errors=True)
            if again:
                with res_lock:
                    res.violate("%s:%s" % (verdict, grp), mode, grp, ci,
                                "no progress: case did not end (%s)" % verdict, seed, thorough)
                    res.stuck = True
                return events, hashes   # each stuck case costs the watchdog's time; one per process is enough
            else:
                with res_lock:
                    res.inconclusive.append("%s case %d of %s slow once" % (mode, ci, grp))
        if st and st[4] == 1:
            return events, hashes
        restarts += 1
        resume = (gi, ci)
        if restarts > cfg.get("max_restarts", 6) or st is None:
            with res_lock:
                res.inconclusive.append("shard %d (%s) stopped after %d failures" % (shard, mode, restarts))
            return events, hashes


def load_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", ln.strip())
            if m:
                out.append(m.groups())
    return out


def check(pid, tier):
    import threading
    t0 = time.time()
    cfg = CHECKS[pid]
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    os.chmod(work, 0o755)
    res = Result()
    try:
        modes = list(cfg["modes"])
        exes = build(cfg, modes, work)
        t1 = time.time()
        lock = threading.Lock()
        budget = cfg.get("budget", 6 * 3600 if thorough else 600)
        shards_for = {m: cfg.get("shards", {}).get(m, JOBS) for m in modes}
        repeat = cfg.get("repeat", {})
        for mode in modes:
            if res.stuck or (res.violations and not thorough):
                break
            n = shards_for[mode]
            for rep in range(repeat.get(mode, 1)):
                deadline = t0 + budget
                w = os.path.join(work, "run_%s_%d" % (mode, rep))
                os.makedirs(w)
                os.chmod(w, 0o755)
                with concurrent.futures.ThreadPoolExecutor(n) as ex:
                    futs = [ex.submit(run_shard, pid, cfg, mode, exes[mode], seed, thorough, i, n, w, lock, res,
                                      deadline) for i in range(n)]
                    for f in futs:
                        ev, hs = f.result()
                        load_events(ev, res, mode, seed, thorough)
                        if os.path.exists(hs):
                            with open(hs, "rb") as hf:
                                b = hf.read()
                            res.hashes.update(struct.unpack("%dQ" % (len(b) // 8), b))
                shutil.rmtree(w, ignore_errors=True)
        if cfg.get("offline"):
            cfg["offline"](res)
        # ------------------------------------------------------------------ verdict
        findings = [(k, w) for p, k, w in load_findings() if p == pid]
        new, known = [], {}
        for key, v in sorted(res.violations.items()):
            hit = next((k for k, w in findings if k == key), None)
            if hit:
                known[hit] = v
            else:
                new.append(v)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": res.cases + res.evals, "distinct_nontrivial": len(res.hashes),
                           "rule": cfg["rule"], "samples": res.samples[:24] or ["none"],
                           "cases": res.cases, "oracle_evaluations": res.evals, "counters": res.counters,
                           "modes": modes, "build_s": round(t1 - t0, 1), "inconclusive": res.inconclusive,
                           "known_findings_seen": sorted(known)},
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
              "violations": len(new)}
        evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, w in findings:
            log("KNOWN-FINDING: property=%s %s%s" % (pid, w, "" if k in known else " (not reached in this run)"))
        if new:
            rd = os.path.join(evdir, "replay")
            os.makedirs(rd, exist_ok=True)
            for v in new[:20]:
                h = hashlib.sha1((pid + v["key"]).encode()).hexdigest()[:10]
                rp = os.path.join(rd, "%s-%s.json" % (pid, h))
                with open(rp, "w") as f:
                    json.dump(dict(v, property=pid), f, indent=1)
                log("violated: key=%s mode=%s group=%s case=%s seen=%d" % (v["key"], v["mode"], v["group"], v["case"], v["count"]))
                log("  " + v["detail"][:1500].replace("\n", "\n  "))
                log("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if res.harness_error:
            raise NoAnswer("harness: " + res.harness_error)
        missing = ["%s=%d (needs %d)" % (c, res.counters.get(c, 0), n) for c, n in cfg.get("require", {}).items()
                   if res.counters.get(c, 0) < n]
        if missing or not res.cases or not res.hashes:
            raise NoAnswer("observed too little: " + (", ".join(missing) or "no case"))
        if res.deadline_hit:
            log("note: stopped at the time budget; what ran is in the evidence")
        log("HELD property=%s cases=%d evaluations=%d distinct=%d build=%.0fs wall=%.0fs %s" %
            (pid, res.cases, res.evals, len(res.hashes), t1 - t0, time.time() - t0,
             "; ".join(res.inconclusive)))
        return 0
    except NoAnswer as e:
        log("NO ANSWER property=%s: %s" % (pid, e))
        return 2
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", work], stderr=subprocess.DEVNULL)
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    cfg = CHECKS[v["property"]]
    work = tempfile.mkdtemp(prefix="verif_replay_", dir="/tmp")
    os.chmod(work, 0o755)
    try:
        exe = build(cfg, [v["mode"]], work)[v["mode"]]
        sc = os.path.join(work, "scratch")
        os.makedirs(sc)
        os.chmod(sc, 0o777)
        env = san_env(v["mode"], cfg, work)
        env["TMPDIR"] = env["HOME"] = sc
        cmd = [exe, "--seed", str(v["seed"]), "--group", v["group"], "--case", str(v["case"]), "--scratch", sc]
        if v.get("thorough"):
            cmd.append("--thorough")
        log("running", " ".join(cmd))
        p = subprocess.run(cmd, env=env, cwd=sc, timeout=600)
        log("exit status", p.returncode)
        return 1 if p.returncode else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("pid")
    c.add_argument("--tier", default=None)
    b = sub.add_parser("build")
    b.add_argument("pid")
    b.add_argument("mode")
    b.add_argument("dir")
    r = sub.add_parser("replay")
    r.add_argument("path")
    a = ap.parse_args()
    if a.cmd == "check":
        sys.exit(check(a.pid, a.tier or os.environ.get("VERIF_TIER") or "quick"))
    if a.cmd == "build":
        print(build(CHECKS[a.pid], [a.mode], a.dir)[a.mode])
        sys.exit(0)
    sys.exit(replay(a.path))
