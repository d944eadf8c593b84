#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id>/ from a bug specification and validates it in a scratch copy of /repo.

  plant.py SPEC.py [id ...]     SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new[, nth])], needs, breaks, demo, flags='')]
  plant.py --catch id ...       run the checks (default: the bug's own property; PROPS=... for others) against planted bugs

Scratch copies live under /tmp/seed and are removed."""
import concurrent.futures, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed"
BASE = "825eba9"
DEMO = """#!/bin/bash
# builds demo.cxx against the sources in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -O1 -g -w %s -Iinclude -I_build -o "$tmp/demo" "$here/demo.cxx" src/*.cxx -lyaml-cpp -lpthread || exit 1
cd "$tmp" && TSAN_OPTIONS=halt_on_error=1 timeout 200 ./demo
"""
HEADER = """#include <atomic>
#include <chrono>
#include <cmath>
#include <fstream>
#include <iostream>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "Barrier.hxx"
#include "Format.hxx"
#include "MailBox.hxx"
#include "Options.hxx"
#include "PropertyTreeYAML.hxx"
#include "Utils.hxx"
#define CHECK(c) do { if(!(c)) { std::cerr << "FAILED: " #c << "\\n"; return 1; } } while(0)
using namespace SoDa;
"""


def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode("latin-1")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy(name):
    d = os.path.join(S, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
    return d


def plant(b):
    out = []
    d = copy("p-" + b["id"])
    try:
        base = {}
        for e in b["edits"]:
            f, old, new = e[:3]
            p = os.path.join(d, f)
            t = open(p).read()
            n = t.count(old)
            nth = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and nth is None):
                return b["id"], False, "edit of %s matches %d times: %r" % (f, n, old)
            if nth is None:
                t = t.replace(old, new)
            else:
                i = -1
                for _ in range(nth + 1):
                    i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            open(p, "w").write(t)
        rc, diff = sh("git diff", d)
        removed, f = 0, None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
                base[f] = subprocess.run(["git", "-C", d, "show", BASE + ":" + f], stdout=subprocess.PIPE).stdout.decode().splitlines()
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
                if l[1:] in base[f]:
                    removed += 1
        if not removed:
            out.append("NOTE: changes no original line")
        sd = os.path.join(V, "seeded", b["id"])
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        open(os.path.join(sd, "demo.sh"), "w").write(DEMO % b.get("flags", ""))
        open(os.path.join(sd, "demo.cxx"), "w").write(HEADER + b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
        os.makedirs(os.path.join(d, "_build"), exist_ok=True)
        rc, log = sh("bash %s/demo.sh" % sd, d, 300)
        if rc == 0 or rc == 124:
            return b["id"], False, "demo passes (or hangs, %d) with the change" % rc
        if "error:" in log:
            return b["id"], False, "does not compile: " + log[:1500]
        out.append("demo: " + log.strip()[-160:])
        rc, log = sh("bash %s/demo.sh" % sd, "/repo", 300)
        if rc:
            return b["id"], False, "demo fails without the change: " + log[-600:]
        # tests
        for s in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + s).read().replace("/repo", d).replace("/opt/vp/build.sh", d + "/_b.sh").replace("--timeout 180", "--timeout 500")
            open(d + "/_" + s[0] + ".sh", "w").write(t)
        shutil.rmtree(d + "/_build", ignore_errors=True)
        rc, log = sh("bash _b.sh", d, 300)
        if rc:
            return b["id"], False, "build fails: " + log[-1500:]
        rc, log = sh("bash _t.sh %s/_out.json" % d, d, 600)
        r = json.load(open(d + "/_out.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [x for x in stable if x not in r["passed"]]
        if miss:
            return b["id"], False, "tests fail: " + " ".join(miss)
        return b["id"], True, "; ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def record(i, prop, key):
    """remembers which check caught what, and rewrites the table in DESIGN.md"""
    f = os.path.join(V, "tools", "caught.json")
    c = json.load(open(f)) if os.path.exists(f) else {}
    c.setdefault(i, {})[prop] = key and re.sub(r"^case \d+ of \S+: ", "", key)[:80]
    have = sorted(os.listdir(os.path.join(V, "seeded")))
    c = {x: c[x] for x in have if x in c}
    json.dump(c, open(f, "w"), indent=0)
    rows = ["| planted bug | needs | caught by | missed by |", "|---|---|---|---|"]
    for x in have:
        m = json.load(open(os.path.join(V, "seeded", x, "meta.json")))
        got = ", ".join("%s (%s)" % (p, k) for p, k in sorted(c.get(x, {}).items()) if k)
        miss = ", ".join(p for p, k in sorted(c.get(x, {}).items()) if not k)
        rows.append("| %s | %s | %s | %s |" % (x, m["needs"].replace("|", "/"), got, miss))
    d = os.path.join(V, "DESIGN.md")
    t = open(d).read()
    a, b = "<!-- catch table -->\n", "<!-- end of catch table -->\n"
    if a in t:
        t = t[:t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
        open(d, "w").write(t)


def catch(i):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    d = copy("c-" + i)
    try:
        rc, log = sh("git apply %s/seeded/%s/patch.diff" % (V, i), d)
        if rc:
            return i, "does not apply " + log
        res = []
        for p in os.environ.get("PROPS", m["property"]).split(","):
            env = dict(os.environ, SODA_REPO=d)
            rc, log = sh("python3 check.py %s quick" % p, V, 1000, env)
            k = re.findall(r"^%s: (case .*)" % p, log, re.M)
            record(i, p, k[0] if rc == 1 and k else None)
            res.append("%s: %s %s" % (p, {0: "MISSED", 1: "caught"}.get(rc, "NO ANSWER %d" % rc), (k[0] if k else log[-300:])[:200]))
        return i, " | ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--catch":
        for i in sys.argv[2:]:
            print(*catch(i), flush=True)
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        todo = [b for b in ns["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
            for i, ok, msg in ex.map(plant, todo):
                print("OK  " if ok else "BAD ", i, msg, flush=True)
                if not ok and os.environ.get("KEEP") is None:
                    shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
