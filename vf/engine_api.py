"""Entry points used by the self test."""
import equiv


def selftest():
    E = equiv.Equiv()
    ds = equiv.verify(E)
    return {"violations": {u: [d.text()[:500] for d in x[:2]] for u, x in ds}, "log": E.log, "changed": sorted(E.changed), "new": sorted(E.new), "lost": sorted(E.lost)}


def mutant():
    """what the analysis says about a small change, over all properties"""
    import props
    import rules
    E = equiv.Equiv(limit=150.0)
    ds = equiv.verify(E)
    if ds:
        return {"say": "caught", "what": "; ".join(u for u, _ in ds)}
    import json
    import os
    known = [json.loads(x) for x in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.jsonl")) if x.strip()]
    known = {k["key"] for k in known if k.get("status") == "open"}
    found = []
    for p in ["C%02d" % i for i in range(1, 31)]:
        R = props.roots(p, set(E.A.members) | set(E.B.members))
        sc = E.A.closure(r for r in R if r in E.A.members)
        found += [p + ":" + f[0] for f in rules.check(rules.Ctx(E, p, sc, "quick"))[0] if f[0] not in known]
    if found:
        return {"say": "caught", "what": "rule " + "; ".join(found[:4])}
    und = [u for u in sorted(E.status) if E.status[u][0] == "unknown"]
    if und:
        why = {}
        for u, att, v, info, texts, whys in E.log:
            if u in und and texts:
                why[u] = "%s [%s]" % (whys[0] if whys[0] else texts[0][:160], att)
        return {"say": "undecided", "what": "; ".join("%s (%s)" % (u, why.get(u, E.status[u][1])) for u in und)}
    return {"say": "quiet", "what": "; ".join("%s: %s %s" % (u, E.status[u][0], E.status[u][1]) for u in sorted(E.changed))}
