import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    cases = []
    rows = c.tlc("Gate").rows
    cases.append({"id": "gate", "kind": "gate", "rows": rows})
    for i, row in enumerate(c.tlc("Chain", constants={"Depth": 5 if c.thorough else 4}).rows):
        cases.append(dict(row, id="chain-%d" % i, kind="chain"))
    for spec, kind, consts, limit in (("ExecW", "exec", {"Depth": 2}, None), ("FileW", "file", {"Depth": 6 if c.thorough else 5}, None),
                                      ("ExprW", "expr", {"Depth": 3}, None)):
        g = c.graph(c.tlc(spec, constants=consts).rows)
        if kind == "exec":
            # cover every action per configuration and state, with few of the slow ones
            ws = g.paths(c.rng, 2, limit=limit)
        else:
            ws = g.paths(c.rng, 12, limit=limit)
        for w in ws:
            w["id"] = kind + "-" + w["id"]
            w["kind"] = kind
        c.notes.setdefault("edges", {})[kind] = {"total": g.nedges, "walks": len(ws)}
        if kind == "exec":
            slow = [w for w in ws if any(s["a"]["c"] == "slow" for s in w["steps"])]
            fast = [w for w in ws if not any(s["a"]["c"] == "slow" for s in w["steps"])]
            seen, keep = set(), []
            for w in slow:
                k = str(w["init"]["c"])
                if k not in seen:
                    seen.add(k)
                    keep.append(w)
            c.rng.shuffle(fast)
            ws = keep + (fast if c.thorough else fast[:700])
        elif not c.thorough:
            c.rng.shuffle(ws)
            ws = ws[:1500]
        cases += ws
    g = c.graph(c.tlc("GovW", constants={"Depth": 7 if c.thorough else 6}).rows)
    ws = g.paths(c.rng, 8, limit=None if c.thorough else 90)
    for w in ws:
        w["id"] = "gov-" + w["id"]
        w["kind"] = "gov"
        w["init"] = dict(w["init"], sl=w["init"]["s"])
        del w["init"]["s"]
        w["steps"] = [{"a": s["a"], "s": {"sl": s["s"]["s"], "h": s["s"]["h"], "p": s["s"]["p"]}} for s in w["steps"]]
    c.notes["edges"]["gov"] = {"total": g.nedges, "walks": len(ws)}
    cases = ws + cases
    b = c.go_build(["gating_driver.go", os.path.join(LIB, "fakemachine_test.go")])
    c.drive(b, {"cases": cases}, timeout=700)
    chain = [x for x in cases if x["kind"] == "chain"][3]
    c.samples.append({"case": "chain", "results": chain["res"], "expected_runs": chain["log"]})
    c.assumptions.append("checks of one watcher are serialised by its run loop; commands run under /bin/sh")
