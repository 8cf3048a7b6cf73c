#!/usr/bin/env python3
"""Measures the analysis on small mechanical changes of /repo's source (mutants), in scratch copies.

Usage: mutants.py [-j N] [-t] [-o OUT] [path-substring...]
-t: also run the repository's tests on the mutants the analysis says nothing about.
The result is one line per mutant: file:line, the change, and what the analysis says: caught, undecided, quiet or nobuild."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "selftest"))
import run as ST

VF = ST.VF
CHILD = r'''
import sys, json, time, faulthandler; faulthandler.dump_traceback_later(400, exit=True)
sys.path.insert(0, %r)
import build
try:
    import engine_api
    r = engine_api.mutant()
except build.BuildError as e:
    r = {"nobuild": str(e)[-300:]}
print("@@" + json.dumps(r))
''' % VF

OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" % ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r"\.\.=", ".."), (r"(?<=\d)\.\.(?=[\w(])", "..="),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bis_some\(", "is_none("), (r"\bis_none\(", "is_some("), (r"\bis_ok\(", "is_err("),
    (r"\.rev\(\)", ""), (r"\bif (?!let)", "if !"), (r"(?<=\W)-(?=\w)", ""), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
    (r"\.invert\(\)", ".clone()")
]


def mutate_line(line):
    out = []
    code = line.split("//")[0] if '"' not in line else line
    for pat, rep in OPS:
        for m in re.finditer(pat, code):
            out.append(line[:m.start()] + rep + line[m.end():])
    # an if with its whole condition negated
    m = re.match(r"^(\s*(?:\} else )?if )(?!let)(.+)( \{\s*)$", line)
    if m:
        out.append("%s!(%s)%s" % (m.group(1), m.group(2), m.group(3)))
    # numbers
    for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.])", code):
        n = int(m.group(1))
        for k in (n + 1, n - 1):
            if k >= 0:
                out.append(line[:m.start()] + str(k) + line[m.end():])
    # characters and strings
    for m in re.finditer(r"'([^'\\])'", code):
        out.append(line[:m.start()] + "'%s'" % ("x" if m.group(1) != "x" else "y") + line[m.end():])
    for m in re.finditer(r'"([^"\\]*)"', code):
        s = m.group(1)
        out.append(line[:m.start()] + '"%s"' % (s + "x") + line[m.end():])
        if s:
            out.append(line[:m.start()] + '"%s"' % s[:-1] + line[m.end():])
    # two neighbouring arguments swapped
    for m in re.finditer(r"\(([&\w.*]+), ([&\w.*]+)\)", code):
        out.append(line[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + line[m.end():])
    # a statement dropped
    if re.match(r"^\s*[\w*].*;\s*$", code) and not re.match(r"^\s*(let|use|pub|mod|type|const|static|fn|impl|extern)\b", code):
        out.append("\n")
    seen, r = {line}, []
    for x in out:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r


def mutants(path):
    lines = open(path).read().split("\n")
    intest = False
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l:
            intest = True
        if intest or re.match(r"^\s*(//|#\[|use |pub use |mod |pub mod )", l):
            continue
        for x in mutate_line(l):
            yield i, x, "\n".join(lines[:i] + [x] + lines[i + 1:])


def one(slot, f, i, new, text, tests):
    d, b = ST.setup(slot) if (slot, "ready") not in READY else (os.path.join(ST.W, "repo%d" % slot), os.path.join(ST.W, "build%d" % slot))
    READY.add((slot, "ready"))
    p = os.path.join(d, f)
    old = open(p).read()
    try:
        open(p, "w").write(text)
        env = dict(os.environ, VF_REPO=d, VF_BUILD=b, PYTHONHASHSEED="0")
        q = subprocess.run(["timeout", "420", sys.executable, "-c", CHILD], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = {"error": q.stdout[-600:]}
        for line in q.stdout.splitlines():
            if line.startswith("@@"):
                r = json.loads(line[2:])
        if tests and r.get("say") in ("undecided", "quiet", "same"):
            q = subprocess.run("timeout 300 cargo test --workspace --no-fail-fast --offline 2>&1 | grep -c '^test .* FAILED\\|error: test failed\\|could not compile'", shell=True, cwd=d,
                               stdout=subprocess.PIPE, text=True)
            r["tests"] = "fail" if int(q.stdout.strip() or 0) else "pass"
        return r
    finally:
        open(p, "w").write(old)


READY = set()


def main():
    av = sys.argv[1:]
    j, out, tests = 7, None, False
    if "-j" in av:
        i = av.index("-j")
        j = int(av[i + 1])
        del av[i:i + 2]
    if "-o" in av:
        i = av.index("-o")
        out = open(av[i + 1], "w")
        del av[i:i + 2]
    if "-t" in av:
        av.remove("-t")
        tests = True
    files = subprocess.run(["git", "-C", "/repo", "ls-files"], stdout=subprocess.PIPE, text=True).stdout.split()
    files = [f for f in files if f.endswith(".rs") and "/tests/" not in f and "/examples/" not in f]
    if av:
        files = [f for f in files if any(a in f for a in av)]
    jobs = [(f, i, new, text) for f in files for i, new, text in mutants(os.path.join("/repo", f))]
    print(len(jobs), "mutants", flush=True)
    slots = list(range(j))
    tally = {}

    def work(job):
        s = slots.pop()
        try:
            return one(s, *job, tests)
        finally:
            slots.append(s)
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        futs = {ex.submit(work, jb): jb for jb in jobs}
        for fu in concurrent.futures.as_completed(futs):
            f, i, new, _ = futs[fu]
            r = fu.result()
            say = "nobuild" if "nobuild" in r else "error" if "error" in r else r["say"]
            tally[say] = tally.get(say, 0) + 1
            if say == "nobuild":
                continue
            line = "%-9s %-4s %s:%d | %s | %s" % (say, r.get("tests", ""), f, i + 1, new.strip()[:140], r.get("what", r.get("error", ""))[:300].replace("\n", " "))
            print(line, file=out or sys.stdout, flush=True)
    print(tally)


if __name__ == "__main__":
    main()
