#!/usr/bin/env python3
"""Runs the check of every planted bug's property against a scratch copy of /repo with the bug. Usage: runseeds.py [-j N] [-a] [id-prefix...]
-a: run every property's check"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SELFTEST_DIR", "/tmp/s/w")


def run(slot, sid, allp):
    d, b = os.path.join(W, "repo%d" % slot), os.path.join(W, "build%d" % slot)
    if not os.path.isdir(d):
        os.makedirs(W, exist_ok=True)
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    subprocess.run(["git", "-C", d, "fetch", "-q"], check=True)
    subprocess.run(["git", "-C", d, "reset", "-q", "--hard", "origin/HEAD"], check=True)
    subprocess.run(["git", "-C", d, "clean", "-qfd", "-e", "target"], check=True)
    if not os.path.isdir(b):
        shutil.copytree(os.path.join(VERIF, ".build"), b, symlinks=True)
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy2("/repo/Cargo.lock", d)
    p = subprocess.run(["git", "-C", d, "apply", os.path.join(VERIF, "seeded", sid, "patch.diff")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return [(sid, "apply", p.stdout, 0)]
    pid = json.load(open(os.path.join(VERIF, "seeded", sid, "meta.json")))["property"]
    pids = ["C%02d" % i for i in range(1, 31)] if allp else [pid]
    out = []
    for q in pids:
        t = time.time()
        p = subprocess.run(["timeout", "900", sys.executable, os.path.join(VERIF, "check.py"), q], env=dict(os.environ, VF_REPO=d, VF_BUILD=b, VF_EVIDENCE=os.path.join(b, "evidence")),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out.append((q, p.returncode, p.stdout, time.time() - t))
    return out


def main():
    av = sys.argv[1:]
    allp = "-a" in av
    verbose = "-v" in av
    av = [a for a in av if a not in ("-a", "-v")]
    j = 7
    if "-j" in av:
        i = av.index("-j")
        j = int(av[i + 1])
        del av[i:i + 2]
    todo = sorted(s for s in os.listdir(os.path.join(VERIF, "seeded")) if not av or any(s.startswith(a) for a in av))
    slots = list(range(j))

    def work(s):
        k = slots.pop()
        try:
            return run(k, s, allp)
        finally:
            slots.append(k)
    missed = 0
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for s, r in zip(todo, ex.map(work, todo)):
            own = json.load(open(os.path.join(VERIF, "seeded", s, "meta.json")))["property"]
            o = [x for x in r if x[0] == own] or r
            ok = o[0][1] == 1 and "VIOLATION property=" + own in o[0][2]
            missed += not ok
            print("%s %-28s %s %.0fs %s" % ("caught" if ok else "MISSED", s, own, o[0][3], " ".join(x[0] for x in r if x[1] == 1 and x[0] != own)), flush=True)
            if verbose or not ok:
                print("     " + o[0][2][-1500:].replace("\n", "\n     "))
    print("missed:", missed, "of", len(todo))


if __name__ == "__main__":
    main()
