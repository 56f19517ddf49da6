def run(c):
    c.tlc("ExtAgents", cfg="ExtSettle.cfg", timeout=120)
    g = c.graph(c.tlc("ExtAgents", timeout=300).rows)
    ps = g.paths(c.rng, 40, limit=None)
    if c.thorough:
        ps += g.paths(c.rng, 12, limit=None) + g.paths(c.rng, 80, limit=None)
    for i, p in enumerate(ps):
        p["id"] = "walk%d" % i
        p["kind"] = "walk"
    rows = c.tlc("ExtRun", timeout=120).rows
    c.rng.shuffle(rows)
    cases = [{"id": "rows%d" % i, "kind": "rows", "rows": rows[i::32]} for i in range(32)]
    cases += [{"id": "race%d" % i, "kind": "race"} for i in range(40 if c.thorough else 8)]
    c.notes["agents"] = {"edges": g.nedges, "uncovered": g.uncovered, "walks": len(ps)}
    c.notes["rows"] = len(rows)
    cases += ps
    c.rng.shuffle(cases)
    b = c.go_build(["external_driver.go"], inpkg=("providers/agent/mcorpc/external", "external"))
    c.drive(b, {"cases": cases}, timeout=600, shards=8)
    c.exhaustive = g.uncovered == 0
    c.assumptions.append("programs are shell scripts; one is expected to be answered within 8 seconds with a timeout of one second")
