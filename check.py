#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's current source (see DESIGN.md).

Exit 0: nothing definite found against it; exit 1 with a VIOLATION line otherwise."""
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    # the same run every time
    os.environ["PYTHONHASHSEED"] = "0"
    # terms are deep
    for what, want in ((resource.RLIMIT_STACK, 1 << 30), (resource.RLIMIT_AS, 16 << 30)):
        try:
            hard = resource.getrlimit(what)[1]
            resource.setrlimit(what, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
        except (ValueError, OSError):
            pass
    os.execv(sys.executable, [sys.executable] + sys.argv)
EVIDENCE = os.environ.get("VF_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, os.path.join(HERE, "vf"))

import build
import equiv
import props
import rules


def known_findings():
    out = []
    for line in open(os.path.join(HERE, "known-findings.jsonl")):
        line = line.strip()
        if line:
            d = json.loads(line)
            if d.get("status") == "open":
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    E = equiv.Equiv(limit=420.0 if tier == "quick" else 700.0)
    R = props.roots(pid, set(E.A.members) | set(E.B.members))
    scope_a = E.A.closure(r for r in R if r in E.A.members)
    scope_b = E.B.closure(r for r in R if r in E.B.members)
    scope = scope_a | scope_b
    findings = []      # (key, text)
    for u, ds in equiv.verify(E, E.affected(scope)):
        if u in scope:
            f = E.A.N.by_cid.get(u)
            findings.append(("differs:" + u, "%s behaves differently from the reference: %s" % (u, "; ".join(d.text()[:700] for d in ds[:2])), "%s:%s" % (f.body.file, f.body.line) if f else u))
    ctx = rules.Ctx(E, pid, scope, tier)
    rf, cov = rules.check(ctx)
    findings += rf
    known = {k["key"]: k for k in known_findings() if k["property"] == pid}
    bad = [f for f in findings if f[0] not in known]
    for k, d in sorted(known.items()):
        if any(f[0] == k for f in findings):
            print("KNOWN-FINDING: property=%s %s" % (pid, d["what"]))
        else:
            print("NOTE: the listed finding %s of %s no longer occurs" % (k, pid))
    st = {}
    for u in sorted(scope_a):
        v = E.status.get(u)
        k = "not compared: no counterpart in the reference" if u not in E.B.members else "%s (%s)" % (v[0], v[1]) if v else "not compared"
        st[k] = st.get(k, 0) + 1
    und = sorted(u for u in scope_a if E.status.get(u, ("x",))[0] == "unknown")
    f0 = E.A
    blocks = sum(1 for u in scope_a for m in E.A.members[u] if E.A.fn(m).kind in ("fn", "method", "closure") for b in E.A.fn(m).body.blocks if b)
    calls = sum(len(E.A.callees[m]) for u in scope_a for m in E.A.members[u])
    coverage = {
        "explanation": "Static comparison of the type-checked MIR of /repo's current source with the reference model in /verif/model (value flow over all paths, "
                       "loops matched by simulation), for every function in the call-graph closure of the property's root functions, plus the property's own rules. Nothing is executed.",
        "root_functions": len([r for r in R if r in E.A.members]),
        "functions_in_scope": len(scope_a),
        "basic_blocks_in_scope": blocks,
        "resolved_call_edges_in_scope": calls,
        "verdicts": st,
        "functions_analysed_by_value_flow": E.nanalysed,
        "undecided_functions": und,
        "functions_without_reference": sorted(scope_a - set(E.B.members))[:40],
        "rules": cov,
        "samples": sorted(R)[:8],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": coverage, "wall_s": round(time.time() - t0, 2),
          "assumptions": ["the reference model has the property (see DESIGN.md)", "library functions behave as the models in vf/models.py say",
                          "no allocation fails and no address space is exhausted"],
          "violations": len(bad)}
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, pid + ".json")
    with open(path, "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for u in und:
        print("UNDECIDED: %s could not be compared with the reference" % u)
    print("%s: %d functions in scope, %d compared by value flow, rules: %s, %.1f s" % (pid, len(scope_a), E.nanalysed, json.dumps(cov), time.time() - t0))
    if bad:
        rp = os.path.join(EVIDENCE, pid + ".violation.txt")
        with open(rp, "w") as fh:
            for f in bad:
                fh.write("%s\n  %s\n  at %s\n" % (f[0], f[1], f[2]))
        for f in bad:
            print("  %s [%s] %s" % (f[0], f[2], f[1][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
