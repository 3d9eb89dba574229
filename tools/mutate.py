#!/usr/bin/env python3
"""Small changes made at random to a property's files, each tried against its check; lists the survivors.
  tools/mutate.py N SEED ID [ID...]     results are appended to /tmp/mut/results.jsonl
A development tool only: no check uses it, and it changes nothing but its own copies under /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, S = "include/maidsafe/common/", "src/maidsafe/common/"
FILES = {
 "C01": [I+"encode.h", S+"encode.cc"], "C02": [I+"bounded_string.h"], "C03": [S+"identity.cc", I+"identity.h"],
 "C05": [I+"serialisation/serialisation.h", I+"serialisation/binary_archive.h", I+"serialisation/types/boost_filesystem.h", I+"serialisation/types/asio_and_boost_asio.h"],
 "C06": [S+"data_types/structured_data_versions.cc:300-", I+"serialisation/binary_archive.h", S+"data_types/data.cc"],
 "C07": [S+"data_types/structured_data_versions.cc"], "C08": [S+"data_types/structured_data_versions.cc"],
 "C09": [S+"data_buffer.cc", I+"data_buffer.h"], "C10": [S+"data_buffer.cc"], "C11": [I+"containers/lru_cache.h"],
 "C12": [S+"active.cc", I+"active.h"], "C13": [I+"safe_queue.h"], "C14": [I+"asio_service.h"],
 "C15": [S+"tcp/connection.cc", I+"tcp/connection.h"], "C16": [S+"tcp/connection.cc", S+"tcp/listener.cc"],
 "C17": [S+"crypto.cc"], "C18": [S+"crypto.cc"], "C19": [I+"crypto.h"], "C20": [S+"crypto.cc"],
 "C21": [S+"rsa.cc"], "C22": [S+"authentication/user_credential_utils.cc", S+"crypto.cc"],
 "C23": [I+"authentication/detail/secure_string.h", S+"authentication/detail/secure_string.cc"],
 "C24": [I+"authentication/detail/safe_allocators.h"], "C25": [S+"hash/algorithms/siphash.cc", I+"hash/algorithms/siphash.h"],
 "C26": [I+"hash.h", I+"hash/"], "C27": [S+"error.cc", S+"error_categories.cc"],
 "C28": [S+"sqlite3_wrapper.cc"], "C29": [S+"ipc.cc", I+"ipc.h"],
 "C30": [S+"data_types/data.cc", S+"data_types/immutable_data.cc", S+"data_types/mutable_data.cc", I+"data_types/data.h"],
 "C31": [S+"utils.cc"], "C32": [S+"utils.cc", I+"utils.h"], "C33": [I+"convert.h", S+"clock.cc", I+"clock.h", I+"tagged_value.h", I+"type_macros.h"],
 "C34": [S+"log.cc", I+"log.h"], "C35": [S+"menu.cc", S+"menu_item.cc", S+"cli.cc", I+"cli.h", I+"menu_item.h"],
 "C36": [I+"on_scope_exit.h", I+"make_unique.h"], "C37": [S+"profiler.cc", I+"profiler.h"], "C38": [S+"process.cc"],
 "C39": [S+"config.cc"], "C40": [S+"test.cc", I+"test.h"], "C41": [S+"visualiser_log.cc", I+"visualiser_log.h"]}
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" && ", " || "), (r" \|\| ", " && "), (r"\(!", "("), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+= ", " -= "), (r" -= ", " += "),
        (r" \+ ", " - "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
        (r"(?<![\w.\[])(\d+)(?=[;),\] ])", None), (r"notify_all", "notify_one"), (r"\bif \((?=[^;]*\)$)", "if (!("), (r"\bwhile \((?=[^;]*\)$)", None),
        (r"\bstd::move\(", "("), (r"begin\(\)", "end()"), (r"push_back", "push_front"), (r"front\(\)", "back()"), (r"back\(\)", "front()"),
        (r" << ", " >> "), (r" & ", " | "), (r" \| ", " & ")]

def code_lines(path):
    f, _, rng = path.partition(":")
    lines = open("/repo/" + f).read().split("\n")
    lo, hi = (int(x or 0) for x in (rng + "-").split("-")[:2]) if rng else (0, 0)
    block, out, stmt = False, [], False
    win = 0
    for n, l in enumerate(lines):
        t = l.strip()
        if t.startswith("#if"):
            if win: win += 1
            elif "WIN32" in t or "MSC" in t or "APPLE" in t: win = 1 if not t.startswith("#ifndef") and "!defined" not in t else 0
        elif t.startswith("#else") and win == 1: win = 0
        elif t.startswith("#elif") and win == 1: win = 0
        elif t.startswith("#endif") and win: win -= 1
        if "/*" in t: block = True
        skip = block or t.startswith("//") or t.startswith("#") or not t or win
        if "*/" in t: block = False
        if re.match(r"(LOG|TLOG|assert|static_assert|BOOST_THROW|namespace|using|template|typedef|public|private|class|struct|enum)", t):
            stmt = True
        if not skip and not stmt and (not rng or n + 1 >= lo and (not hi or n + 1 <= hi)):
            out.append((n, l))
        if stmt and (t.endswith(";") or t.endswith("{") or t.endswith(":") or t.endswith("}") or t.startswith(("template", "namespace"))):
            stmt = False
    return f, lines, out

def mutants(pid):
    res = []
    paths = []
    for p in FILES[pid]:
        if p.endswith("/"):
            for r, _, fs in os.walk("/repo/" + p):
                paths += [os.path.relpath(os.path.join(r, x), "/repo") for x in fs]
        else: paths.append(p)
    for p in paths:
        f, lines, code = code_lines(p)
        for n, l in code:
            c = l.split("//")[0]
            for pat, rep in SUBS:
                for m in re.finditer(pat, c):
                    if re.search(r"\btemplate\b|#include|operator|std::function<|extern", c): continue
                    if pat.startswith(r"(?<!"):
                        new = c[:m.start()] + str(int(m.group(1)) + 1) + c[m.end():]
                    elif pat.startswith(r"\bif"):
                        new = c[:m.start()] + "if (!(" + c[m.end():] + ")" if not c.rstrip().endswith("{") else None
                    elif pat.startswith(r"\bwhile"):
                        new = c[:m.start()] + "if (" + c[m.end():]
                    else: new = c[:m.start()] + rep + c[m.end():]
                    if new and new != c: res.append((f, n, l, new))
            t = c.strip()
            if re.match(r"^[\w:>.()*\-\[\]+]+.*;$", t) and not re.match(r"^(return|break|continue|else|case|default|const|auto|using|typedef|throw|delete|goto|virtual|friend|explicit|static|extern|inline|bool|int|uint|std::string \w)", t) \
               and (t.count("(") == t.count(")")) and ("(" in t or "=" in t):
                res.append((f, n, l, l[:len(l) - len(l.lstrip())] + ";"))
            if re.match(r"^(BOOST_THROW|throw|return)\b.*;$", t): pass
            m = re.match(r"^(\s*)if \((.*)\) \{$", c)
            if m:
                res.append((f, n, l, "%sif (!(%s)) {" % m.groups()))
                res.append((f, n, l, "%sif (true || (%s)) {" % m.groups()))
                res.append((f, n, l, "%sif (false && (%s)) {" % m.groups()))
    return sorted(set(res))

def attempt(job):
    k, pid, (f, n, old, new) = job
    c = "/tmp/mut/t%d_%s_%d" % (os.getpid(), pid, k)
    shutil.rmtree(c, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", c], check=True)
    try:
        p = os.path.join(c, f)
        L = open(p).read().split("\n")
        assert L[n] == old
        L[n] = new
        open(p, "w").write("\n".join(L))
        env = dict(os.environ, VERIF_REPO=c, VERIF_SEED="1", VERIF_FAIL_FAST="1", VERIF_EVIDENCE="/tmp/mut/ev%d" % k)
        t = time.time()
        try:
            r = subprocess.run([sys.executable, "run.py", "check", pid], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, out = 124, ""
        verdict = "killed" if rc == 1 else "SURVIVED" if rc == 0 else "timeout" if rc == 124 else "nobuild" if "compiling" in out or "linking" in out else "noanswer"
        rec = dict(property=pid, file=f, line=n + 1, old=old.strip(), new=new.strip(), verdict=verdict, s=round(time.time() - t),
                   keys=sorted(set(re.findall(r"key=(\S+)", out)))[:3], note=out[-300:] if verdict == "noanswer" else "")
        with open("/tmp/mut/results.jsonl", "a") as o: o.write(json.dumps(rec) + "\n")
        print("%-8s %s %s:%d  %s  ->  %s  %ds %s" % (verdict, pid, f.split("/")[-1], n + 1, old.strip(), new.strip(), rec["s"], rec["keys"] or rec["note"]), flush=True)
    finally:
        shutil.rmtree(c, ignore_errors=True)
        shutil.rmtree("/tmp/mut/ev%d" % k, ignore_errors=True)

if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    os.makedirs("/tmp/mut", exist_ok=True)
    jobs = []
    for pid in sys.argv[3:]:
        m = mutants(pid)
        random.Random("%s%d" % (pid, seed)).shuffle(m)
        print(pid, len(m), "possible", flush=True)
        jobs += [(len(jobs) + i, pid, x) for i, x in enumerate(m[:n])]
    if os.environ.get("MUT_LIST"):
        for j in jobs: print(j)
    else:
        with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "2"))) as ex: list(ex.map(attempt, jobs))
