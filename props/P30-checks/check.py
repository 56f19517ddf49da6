import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    cases = []
    for mod, kind, n in (("Nagios", "nagios", 24), ("Metric", "metric", 8)):
        g = c.graph(c.tlc(mod, timeout=300).rows)
        ps = g.paths(c.rng, n, limit=None)
        c.notes[kind] = {"edges": g.nedges, "uncovered": g.uncovered, "walks": len(ps)}
        for i, p in enumerate(ps):
            p["id"] = "%s%d" % (kind, i)
            p["kind"] = kind
        cases += ps
    rows = c.tlc("Programs", timeout=300).rows
    ex = [r for r in rows if r["r"]["k"] == "exec"]
    c.rng.shuffle(ex)
    cases += [{"id": "exec%d" % i, "kind": "exec", "rows": ex[i::24]} for i in range(24)]
    sc = [r for r in rows if r["r"]["k"] == "scout"]
    cases += [{"id": "scout%d" % i, "kind": "scout", "rows": sc[i::8]} for i in range(8)]
    c.rng.shuffle(cases)
    c.notes["tables"] = {"exec": len(ex), "scout": len(sc)}
    b = c.go_build(["checks_driver.go", os.path.join(LIB, "fakemachine_test.go")])
    c.drive(b, {"cases": [{"id": "mrace%d" % i, "kind": "mrace"} for i in range(24 if c.thorough else 6)]}, timeout=300, shards=2)
    c.drive(b, {"cases": cases}, timeout=550, shards=8)
    c.exhaustive = True
    c.assumptions.append("programs are shell scripts; one that does not finish is given up on within 15 seconds")
