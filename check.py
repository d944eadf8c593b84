#!/usr/bin/env python3
"""Driver of the checks.

  check.py <property> quick|thorough   build from /repo's working tree, run, judge, write evidence/<property>.json
  check.py replay <file>               run the one case of a replay file again
  check.py setup                       compile what can be compiled ahead (a cache only)

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: no answer.
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SODA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
# development only: a scratch copy of the repository, fewer cases, an impatient watchdog, results elsewhere
DEV = "SODA_REPO" in os.environ
SCALE = float(os.environ.get("SODA_SCALE", "1"))
STALL = float(os.environ.get("SODA_STALL", "60"))
RESULTS = os.path.join(BUILD, "dev") if DEV else VERIF
sys.path.insert(0, VERIF)
from checks import EXES, PROPS   # what to build, what to run

NPROC = max(1, min(8, os.cpu_count() or 1))


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


# ------------------------------------------------------------------ build
def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    src = os.path.join(REPO, "src")
    return sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith((".cxx", ".cpp", ".cc")))


def tree_hash():
    h = hashlib.sha256()
    for d in ("include", "src"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(files):
                h.update(f.encode())
                h.update(read(os.path.join(root, f)))
    h.update(read(os.path.join(REPO, "version.hxx.in")))
    return h.hexdigest()


def gen_version(gen):
    os.makedirs(gen, exist_ok=True)
    t = read(os.path.join(REPO, "version.hxx.in")).decode()
    t = re.sub(r"@\w*MAJOR@", "1", t)
    t = re.sub(r"@\w*MINOR@", "0", t)
    t = re.sub(r"@\w*PATCH@", "0", t)
    t = re.sub(r"@\w*VERSION@", "1.0.0", t)
    t = re.sub(r"@\w*@", "verif", t)
    out = os.path.join(gen, "UtilsVersion.hxx")
    if not os.path.exists(out) or read(out).decode() != t:
        with open(out + ".tmp%d" % os.getpid(), "w") as f:
            f.write(t)
        os.rename(out + ".tmp%d" % os.getpid(), out)


def run_quiet(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build(names):
    """Builds the executables; returns {name: path}. Objects are cached by content."""
    th = tree_hash()
    gen = os.path.join(BUILD, "gen")
    gen_version(gen)
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    hh = hashlib.sha256()
    for f in sorted(os.listdir(HARN)):
        if f.endswith(".hxx"):
            hh.update(read(os.path.join(HARN, f)))
    hh = hh.hexdigest()
    jobs, exes = {}, {}

    def obj(src, flags, dep):
        if "SODA_PPCACHE" in os.environ:    # development: by preprocessed text, for many nearly equal trees
            pp = subprocess.run(["g++"] + flags + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
            dep, src_id, text = "", os.path.basename(src), pp + b"E" * (not pp)
            key = hashlib.sha256((" ".join(f for f in flags if not f.startswith("-I")) + src_id).encode() + text).hexdigest()[:32]
        else:
            key = hashlib.sha256((dep + " ".join(flags) + src).encode() + read(src)).hexdigest()[:32]
        out = os.path.join(cache, key + ".o")
        if out not in jobs:
            jobs[out] = (src, flags)
        return out

    for n in names:
        e = EXES[n]
        objs = []
        for s in e["support"]:      # independent of /repo
            objs.append(obj(os.path.join(HARN, s), ["-std=gnu++17", "-O1", "-g", "-I" + HARN] + e.get("support_flags", []), hh))
        for s in e["harness"]:
            objs.append(obj(os.path.join(HARN, s), ["-std=gnu++17", "-I" + HARN, "-I" + REPO + "/include", "-I" + gen] + e["flags"], hh + th))
        for s in repo_sources():
            objs.append(obj(s, ["-std=gnu++11", "-I" + REPO + "/include", "-I" + gen, "-w"] + e["lib_flags"], th))
        exes[n] = (objs, e["link"])

    def compile_one(it):
        out, (src, flags) = it
        if os.path.exists(out):
            os.utime(out)
            return None
        tmp = out + ".%d.tmp.o" % os.getpid()
        rc, log = run_quiet(["g++"] + flags + ["-c", src, "-o", tmp])
        if rc:
            return "compiling %s failed:\n%s" % (src, log[-3000:])
        os.rename(tmp, out)
        return None

    # the biggest files first
    order = sorted(jobs.items(), key=lambda kv: -os.path.getsize(kv[1][0]))
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for err in ex.map(compile_one, order):
            if err:
                die(err)
    res = {}

    def link_one(n):
        objs, link = exes[n]
        out = os.path.join(cache, n + "-" + hashlib.sha256(" ".join(objs + link).encode()).hexdigest()[:24])
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            rc, log = run_quiet(["g++", "-o", tmp] + objs + link)
            if rc:
                return n, None, log
            os.rename(tmp, out)
        else:
            os.utime(out)
        return n, out, ""
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for n, out, log in ex.map(link_one, names):
            if out is None:
                die("linking %s failed:\n%s" % (n, log[-3000:]))
            res[n] = out
    prune(cache)
    return res


def prune(cache):
    files = [os.path.join(cache, f) for f in os.listdir(cache)]
    files = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in files), reverse=True)
    total = 0
    for m, s, f in files:
        total += s
        if total > 3 << 30 and time.time() - m > 3600:
            os.unlink(f)


# ------------------------------------------------------------------ dictionary of the sources under test
def harvest(path):
    ints, dbls, strs, chars = set(), set(), set(), set()
    esc = {"n": "\n", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"', "r": "\r"}

    def unesc(s):
        return re.sub(r"\\(x[0-9a-fA-F]{1,2}|[0-7]{1,3}|.)", lambda m: chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == "x" and len(m.group(1)) > 1
                      else chr(int(m.group(1), 8) & 255) if m.group(1).isdigit() else esc.get(m.group(1), m.group(1)), s)
    for d in ("include", "src"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if not f.endswith((".hxx", ".cxx", ".h", ".hpp", ".cpp", ".cc")):
                    continue
                t = read(os.path.join(root, f)).decode("latin-1")
                t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
                t = re.sub(r"(?m)//[^\n\"]*$", " ", t)
                for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
                    strs.add(unesc(m.group(1)))
                for m in re.finditer(r"'((?:[^'\\\n]|\\[^\n]{1,3}))'", t):
                    chars.add(unesc(m.group(1)))
                t = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", t)
                for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", t):
                    v = int(m.group(1), 16) if m.group(1)[:2].lower() == "0x" else int(m.group(1))
                    if v < 1 << 62:
                        ints.add(v)
                for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)", t):
                    dbls.add(m.group(1))
    with open(path, "w") as o:
        for k, vals in (("i", map(str, sorted(ints))), ("d", sorted(dbls)), ("s", sorted(strs)), ("c", sorted(chars))):
            for v in vals:
                o.write(k + " " + v.encode("latin-1", "replace").hex() + "\n")


# ------------------------------------------------------------------ run
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3500:quarantine_size_mb=64:detect_stack_use_after_return=1:strict_string_checks=1:handle_abort=1",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=86",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=86:second_deadlock_stack=1:detect_deadlocks=0:history_size=4:report_thread_leaks=0",
}


def crash_key(rc, err):
    m = re.search(r"(?:SUMMARY|ERROR): (\w+Sanitizer):? ([\w-]+)", err)
    m2 = re.search(r"SUMMARY: (\w+Sanitizer): (.*)", err)
    frame = ""
    for f in re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err):
        if "SoDa::" in f:
            frame = re.sub(r"\(.*", "", f).strip()[:80]
            break
    if m2:
        return "sanitizer:%s:%s" % (m2.group(2).split(" ")[0], frame)
    m3 = re.search(r"runtime error: ([^\n]*)", err)
    if m3:
        return "sanitizer:undefined-behaviour:" + frame
    if m:
        return "sanitizer:%s:%s" % (m.group(2), frame)
    if "terminate called" in err:
        return "crash:terminate"
    if rc < 0:
        return "crash:signal-%d" % -rc
    return "crash:exit-%d" % rc


class Shard:
    def __init__(self, exe, job, tier, seed, frm, to, stride, tmp, tag, cpu, dictf):
        self.exe, self.job, self.frm, self.to, self.stride = exe, job, frm, to, stride
        self.out = os.path.join(tmp, tag + ".json")
        self.prog = os.path.join(tmp, tag + ".prog")
        self.errf = os.path.join(tmp, tag + ".err")
        self.scratch = os.path.join(tmp, tag + ".scratch")
        os.makedirs(self.scratch, exist_ok=True)
        self.args = [exe, "--prop", job["case"], "--seed", str(seed), "--from", str(frm), "--to", str(to), "--stride", str(stride),
                     "--out", self.out, "--progress", self.prog, "--tier", tier, "--dict", dictf, "--scratch", self.scratch,
                     "--hostile", "1" if job.get("hostile") else "0"]
        self.cpu = cpu
        self.p = None
        self.last = None
        self.t_last = 0

    def start(self):
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.pop("LD_PRELOAD", None)
        cpu = self.cpu if self.job.get("pin") else None

        def pre():
            os.setsid()
            if cpu is not None:
                try:
                    os.sched_setaffinity(0, {cpu})
                except OSError:
                    pass
        ef = open(self.errf, "wb")
        self.p = subprocess.Popen(self.args, stdout=subprocess.DEVNULL, stderr=ef, env=env, preexec_fn=pre, cwd=self.scratch)
        ef.close()
        self.t_last = time.time()
        return self

    def progress(self):
        try:
            b = read(self.prog)
            return struct.unpack("QQ", b[:16])
        except (OSError, struct.error):
            return (self.frm, 0)

    def text(self):
        try:
            b = read(self.prog)
            i, n = struct.unpack("QQ", b[:16])
            return b[16:16 + min(n, 8176)].decode("latin-1")
        except (OSError, struct.error):
            return ""

    def stderr(self):
        try:
            b = read(self.errf)
        except OSError:
            return ""
        return b[-200000:].decode("latin-1")

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def result(self):
        try:
            return json.loads(read(self.out))
        except (OSError, ValueError):
            return None


def watch(shards, stall, deadline, want_stop):
    """Runs the shards to their ends; yields (shard, status), status: 'ok', 'crash' or 'stall'."""
    live = list(shards)
    while live:
        time.sleep(0.05)
        for s in list(live):
            rc = s.p.poll()
            if rc is not None:
                live.remove(s)
                yield s, ("ok" if rc == 0 else "crash")
                continue
            pr = s.progress()
            if pr[0] != s.last:
                s.last, s.t_last = pr[0], time.time()
            elif time.time() - s.t_last > stall:
                s.kill()
                live.remove(s)
                yield s, "stall"
        if want_stop() or time.time() > deadline:
            for s in live:
                s.kill()
                yield s, ("stopped" if want_stop() else "deadline")
            return


def known_findings(prop):
    res = []
    f = os.path.join(VERIF, "known-findings.txt")
    for l in read(f).decode().splitlines() if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+) match=/(.*)/ :: (.*)", l)
        if m and m.group(1) == prop:
            res.append({"key": m.group(2), "match": m.group(3), "text": m.group(4), "seen": 0})
    return res


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = PROPS[prop]
    quick = tier != "thorough"
    jobs = [dict(j) for j in spec["jobs"]]
    exes = build(sorted(set(j["exe"] for j in jobs)))
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    try:
        rc = run(prop, tier, seed, spec, jobs, exes, tmp, t0, t_build, quick)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, spec, jobs, exes, tmp, t0, t_build, quick):
    dictf = os.path.join(tmp, "dict")
    harvest(dictf)
    limit = t0 + (780 if quick else 6 * 3600)
    viols, counters, samples, hashes, evals, notes, planned, done = [], {}, [], set(), 0, [], 0, 0
    errors = []
    for ji, job in enumerate(jobs):
        total = max(NPROC, int((job["quick"] if quick else job["thorough"]) * SCALE))
        planned += total
        n = min(job.get("shards", NPROC), NPROC, total)
        todo = [Shard(exes[job["exe"]], job, tier, seed, i, total, n, tmp, "j%d-s%d" % (ji, i), i, dictf) for i in range(n)]
        gen = 0
        while todo and len(viols) < 3:
            cur, todo = [s.start() for s in todo], []
            for s, st in watch(cur, job.get("stall", STALL), limit, lambda: len(viols) >= 3):
                r = s.result()
                if st == "ok" and r:
                    evals += r["evaluations"]
                    done += r["done"]
                    for k, v in r["counters"].items():
                        counters[k] = counters.get(k, 0) + v
                    if len(samples) < 4:
                        samples += r["samples"][:1]
                    try:
                        b = read(s.out + ".hash")
                        hashes.update(x[0] for x in struct.iter_unpack("Q", b))
                    except OSError:
                        pass
                    for v in r["violations"]:
                        v["job"] = job
                        viols.append(v)
                    if r["inconclusive"]:
                        st = "stall"
                if st == "ok":
                    if not r:
                        errors.append("no result from a run of %s: %s" % (job["case"], s.stderr()[-2000:]))
                    continue
                idx = s.progress()[0]
                if st == "stopped":
                    continue
                if st == "deadline":
                    errors.append("time is up in %s at case %d" % (job["case"], idx))
                    continue
                if st == "crash":
                    rc = s.p.returncode
                    err = s.stderr()
                    if rc == 3 or rc == -9:   # harness failure; killed from outside
                        errors.append("run of %s ended with %d: %s" % (job["case"], rc, err[-2000:]))
                        continue
                    viols.append({"key": crash_key(rc, err), "case": idx, "msg": "executing: " + s.text() + "\n" + err[:6000], "job": job})
                else:   # no progress: once more, alone
                    one = Shard(s.exe, job, tier, seed, idx, idx + 1, 1, tmp, "again%d-%d-%d" % (ji, idx, gen), s.cpu, dictf).start()
                    st2 = [x for x in watch([one], job.get("stall", STALL) * 1.5, max(limit, time.time() + 120), lambda: False)][0][1]
                    r2 = one.result()
                    if st2 == "stall" or (st2 == "ok" and r2 and r2["inconclusive"]):
                        viols.append({"key": "hang", "case": idx, "msg": "no progress, twice, while executing: " + one.text(), "job": job})
                    elif st2 == "crash":
                        viols.append({"key": crash_key(one.p.returncode, one.stderr()), "case": idx, "msg": "executing: " + one.text() + "\n" + one.stderr()[:6000], "job": job})
                    else:
                        notes.append("case %d of %s stalled once and not again" % (idx, job["case"]))
                        for v in (r2 or {}).get("violations", []):
                            v["job"] = job
                            viols.append(v)
                        gen += 1
                        if gen > 20:
                            errors.append("too many stalls in " + job["case"])
                        elif idx + s.stride < s.to:
                            todo.append(Shard(s.exe, job, tier, seed, idx + s.stride, s.to, s.stride, tmp, "j%d-s%d-g%d" % (ji, s.cpu, gen), s.cpu, dictf))
        if len(viols) >= 3:
            break
    # ---- judge
    known = known_findings(prop)
    new = []
    for v in viols:
        for k in known:
            if k["key"] == v["key"] and re.search(k["match"], v["msg"], re.S):
                k["seen"] += 1
                break
        else:
            new.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    for e in errors:
        notes.append(e)
    ev = {"property": prop, "tier": "quick" if quick else "thorough", "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": spec["rule"], "samples": samples or ["none"],
                       "cases_planned": planned, "cases_done": done, "observed": counters, "build_s": round(t_build, 1), "notes": notes[:10]},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(RESULTS, "evidence"), exist_ok=True)
    with open(os.path.join(RESULTS, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        rd = os.path.join(RESULTS, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(new[:3]):
            p = os.path.join(rd, "%s-%s-%d-%d.json" % (prop, tier, seed, n))
            with open(p, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "exe": v["job"]["exe"], "case": v["job"]["case"], "index": v["case"],
                           "hostile": bool(v["job"].get("hostile")), "key": v["key"], "message": v["msg"],
                           "how": "python3 %s/check.py replay %s" % (VERIF, p)}, f, indent=1)
            print("%s: case %d of %s: %s\n%s" % (prop, v["case"], v["job"]["case"], v["key"], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        return 1
    if errors:
        print("ERROR: %s gave no answer: %s" % (prop, "; ".join(errors)[:4000]))
        return 2
    if evals < spec.get("min_evaluations", 100) or len(hashes) < 2:
        print("ERROR: %s observed too little (%d evaluations, %d distinct)" % (prop, evals, len(hashes)))
        return 2
    print("%s held: %d evaluations, %d distinct nontrivial cases, %s (%.1f s, build %.1f s)" %
          (prop, evals, len(hashes), ", ".join("%s=%d" % kv for kv in sorted(counters.items())), time.time() - t0, t_build))
    return 0


def replay(f):
    r = json.loads(read(f))
    exe = build([r["exe"]])[r["exe"]]
    tmp = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        d = os.path.join(tmp, "dict")
        harvest(d)
        job = {"case": r["case"], "hostile": r["hostile"], "pin": True}
        os.environ["HX_VERBOSE"] = "1"
        s = Shard(exe, job, r["tier"], r["seed"], r["index"], r["index"] + 1, 1, tmp, "replay", 0, d).start()
        st = [x for x in watch([s], 120, time.time() + 600, lambda: False)][0][1]
        print(st, json.dumps(s.result(), indent=1))
        print("executing: " + s.text())
        print(s.stderr()[-8000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    os.makedirs(BUILD, exist_ok=True)
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        replay(sys.argv[2])
    elif len(sys.argv) > 1 and sys.argv[1] == "setup":
        build(sorted(EXES))
    elif len(sys.argv) > 2 and sys.argv[1] in PROPS:
        main(sys.argv[1], sys.argv[2])
    else:
        die("usage: check.py <property> quick|thorough | replay <file> | setup")
