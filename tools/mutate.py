#!/usr/bin/env python3
"""Development tool: mutation analysis of the checks.

  mutate.py list [file ...]          the mutants
  mutate.py run OUT [file ...]       run the checks of the mutated file against every mutant, survivors (with their diffs) to OUT

Every mutant is a scratch copy of /repo's include/ and src/ under /tmp/mut. SODA_SCALE scales the number of cases."""
import os, re, shutil, subprocess, sys, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
CHECKS = {"Barrier": ["B01", "B02", "B03", "C01"], "MailBox": ["M01", "M03", "M04", "M02", "M05", "M06", "C01"],
          "Format": ["F01", "F02", "F03", "F04", "F05", "F06", "F07", "S01"], "Options": ["O01", "O02", "O03", "O04", "O05", "O06", "O07", "S01"],
          "PropertyTree": ["P01", "P02", "P03", "P04", "P05", "S01"], "PropertyTreeYAML": ["P01", "P02", "P03", "P04", "P05", "S01"],
          "Split": ["U01", "U02", "O03", "O05"], "Utils": ["U01", "U02"], "UtilsBase": ["U01"], "NoCopy": ["M06"], "Exception": ["M06", "B03", "P01"]}
REPL = [(r"==", ["!="]), (r"!=", ["=="]), (r"(?<![<\-])<=", ["<"]), (r">=", [">"]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
        (r"(?<=[\w\)] )<(?= [\w\(])", ["<="]), (r"(?<=[\w\)] )>(?= [\w\(])", [">="]), (r"\+\+", ["--"]), (r"--", ["++"]),
        (r"(?<=[\w\)] )\+(?= [\w\(])", ["-"]), (r"(?<=[\w\)] )-(?= [\w\(])", ["+"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
        (r"!(?=[\w\(])", [""]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\bif ?\(", ["if(false && ", "if(true || "]), (r"\bwhile ?\(", ["while(false && "]),
        (r"(?<![\w.\"'\\%])\d+(?![\w.\"'])", None), (r"\.empty\(\)", [".size() == 1"]), (r"\bfront\(\)", ["back()"]), (r"\bpush_back\b", ["push_front"]), (r"\bsigned\b", [""]), (r"\bunsigned long\b", ["unsigned int"]), (r"\bnullptr\b", ["nullptr"])]


def mutants(f):
    t = open(f).read()
    spans = [m.span() for m in re.finditer(r"/\*.*?\*/|//[^\n]*|\"(?:[^\"\\\n]|\\.)*\"|'(?:[^'\\\n]|\\.)*'|^#[^\n]*", t, flags=re.S | re.M)]
    inside = lambda p: any(a <= p < b for a, b in spans)
    res = []
    for pat, reps in REPL:
        for m in re.finditer(pat, t):
            if inside(m.start()):
                continue
            rs = reps if reps is not None else [str(int(m.group(0)) + 1)] + ([str(int(m.group(0)) - 1)] if int(m.group(0)) > 0 else [])
            for r in rs:
                if r != m.group(0):
                    res.append((m.start(), m.end(), r))
    # delete statements
    for m in re.finditer(r"(?m)^[ \t]+([^\n;{}]*;)[ \t]*$", t):
        s = m.group(1)
        if inside(m.start(1)) or re.match(r"(class|struct|typedef|using|friend|enum|virtual|std::\w+(<[^;]*>)? [&*]?\w+;|(unsigned )?(int|bool|double|char|long) \w+;|public|private|return [^;]*;$)", s) or s.startswith("}"):
            continue
        res.append((m.start(1), m.end(1), ";"))
    return t, res


def build(f, t, mu, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("include", "src"):
        shutil.copytree(os.path.join(R, x), os.path.join(d, x))
    shutil.copy(os.path.join(R, "version.hxx.in"), d)
    open(os.path.join(d, os.path.relpath(f, R)), "w").write(t[:mu[0]] + mu[2] + t[mu[1]:])


def main():
    if sys.argv[1] == "run":
        out, files = sys.argv[2], sys.argv[3:]
    else:
        out, files = None, sys.argv[2:]
    total = 0
    for name in files:
        f = [p for p in (os.path.join(R, "src", name), os.path.join(R, "include", name)) if os.path.exists(p)][0]
        t, ms = mutants(f)
        random.Random(1).shuffle(ms)
        stem = name.split(".")[0]
        for i, mu in enumerate(ms):
            line = t.count("\n", 0, mu[0]) + 1
            a, b = t.rfind("\n", 0, mu[0]) + 1, t.find("\n", mu[1])
            desc = "%s:%d  %s  ==>  %s" % (name, line, t[a:b].strip(), (t[a:mu[0]] + mu[2] + t[mu[1]:b]).strip())
            total += 1
            if not out:
                print(desc)
                continue
            if os.path.exists(out) and desc in open(out).read():
                continue
            d = "/tmp/mut/%s-%d" % (stem, i)
            build(f, t, mu, d)
            # the plain build first
            cxx = [f] if f.endswith(".cxx") else [f]
            g = ["g++", "-std=gnu++11", "-fsyntax-only", "-w", "-I" + d + "/include", "-I" + V + "/build/gen"]
            probe = os.path.join(d, os.path.relpath(f, R))
            p = subprocess.run(g + (["-x", "c++"] if f.endswith(".hxx") else []) + [probe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            verdict = "SURVIVED"
            if p.returncode:
                verdict = "nocompile"
            else:
                env = dict(os.environ, SODA_REPO=d, SODA_PPCACHE="1", SODA_STALL=os.environ.get("SODA_STALL", "4"), SODA_SCALE=os.environ.get("SODA_SCALE", "0.15"))
                for c in CHECKS[stem]:
                    p = subprocess.run(["python3", os.path.join(V, "check.py"), c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if p.returncode == 1:
                        verdict = "killed by " + c
                        break
                    if p.returncode == 2 and b"compiling" in p.stdout:
                        verdict = "nocompile"
                        break
                    if p.returncode:
                        verdict = "no answer of " + c
                        break
            shutil.rmtree(d, ignore_errors=True)
            with open(out, "a") as o:
                o.write("%-14s %s\n" % (verdict, desc))
    if not out:
        print(total)


main()
