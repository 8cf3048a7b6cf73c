#!/usr/bin/env python3
"""Self test of the analysis: applies planted changes (M) and behaviour-preserving edits (R) to scratch copies of
/repo and shows what the comparison with the reference says. Usage: run.py [-v] [-j N] [name-prefix...]"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VF = os.path.join(os.path.dirname(HERE), "vf")
W = os.environ.get("SELFTEST_DIR", "/tmp/s/w")
sys.path.insert(0, HERE)

CHILD = r'''
import sys, json, time, faulthandler; faulthandler.dump_traceback_later(280, exit=True)
sys.path.insert(0, %r)
import build
t0 = time.time()
try:
    import engine_api
    r = engine_api.selftest()
except build.BuildError as e:
    r = {"error": str(e)[-3000:]}
r["wall"] = round(time.time() - t0, 1)
print("@@" + json.dumps(r))
''' % VF


def setup(slot):
    d, b = os.path.join(W, "repo%d" % slot), os.path.join(W, "build%d" % slot)
    if not os.path.isdir(d):
        os.makedirs(W, exist_ok=True)
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    subprocess.run(["git", "-C", d, "fetch", "-q"], check=True)
    subprocess.run(["git", "-C", d, "reset", "-q", "--hard", "origin/HEAD"], check=True)
    subprocess.run(["git", "-C", d, "clean", "-qfd", "-e", "target"], check=True)
    if not os.path.isdir(b):
        shutil.copytree(os.path.join(os.path.dirname(VF), ".build"), b, symlinks=True)
    return d, b


def run_case(slot, case):
    name, kind, edits = case[:3]
    d, b = setup(slot)
    if isinstance(edits, str):
        p = subprocess.run(["git", "-C", d, "apply", edits], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return {"error": p.stdout}
    else:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return {"error": "text not found: %s" % old[:80]}
            open(p, "w").write(s.replace(old, new, 1))
    env = dict(os.environ, VF_REPO=d, VF_BUILD=b, PYTHONHASHSEED="0")
    p = subprocess.run(["timeout", "420", sys.executable, "-c", CHILD], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    return {"error": p.stdout[-3000:]}


def main():
    av = sys.argv[1:]
    verbose = "-v" in av
    av = [a for a in av if a != "-v"]
    j = 7
    if "-j" in av:
        i = av.index("-j")
        j = int(av[i + 1])
        del av[i:i + 2]
    import cases
    cs = [c for c in cases.CASES if not av or any(c[0].startswith(a) for a in av)]
    for p in av:
        if p.endswith(".diff"):
            cs.append((os.path.basename(os.path.dirname(p)), "M", os.path.abspath(p)))
    slots = list(range(j))
    bad = 0

    def work(c):
        s = slots.pop()
        try:
            return run_case(s, c)
        finally:
            slots.append(s)
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        futs = {ex.submit(work, c): c for c in cs}
        for f in concurrent.futures.as_completed(futs):
            c = futs[f]
            r = f.result()
            viol = r.get("violations", {})
            v = "ERROR" if "error" in r else "caught" if viol else "quiet"
            good = v == ("caught" if c[1] == "M" else "quiet")
            bad += not good
            print("%s %s %-28s %-7s %5ss %s" % ("ok  " if good else "BAD ", c[1], c[0], v, r.get("wall", "?"), ",".join(sorted(viol)) if viol else ""))
            if verbose or not good:
                if "error" in r:
                    print("   ", r["error"][-1500:])
                for x in r.get("log", []):
                    print("    LOG", x[0], "attempt", x[1], x[2], x[3])
                    for t, w in zip(x[4][:3], x[5][:3]):
                        print("         ", t[:500], "//", w[:300])
                for k, x in sorted(viol.items()):
                    print("    ", k, str(x)[:600])
                for k in ("changed", "new", "lost"):
                    if r.get(k):
                        print("    ", k, r[k])
            sys.stdout.flush()
    print("unexpected:", bad)


if __name__ == "__main__":
    main()
