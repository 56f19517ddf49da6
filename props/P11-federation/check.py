def run(c):
    c.tlc("Federation", constants={"Msgs": "{m1, m2, m3}"} if c.thorough else None, workers=4, timeout=600)
    rows = c.tlc("FedMsg", constants={"Long": "TRUE"}, timeout=300).rows
    cases = [dict(r, id="m%d" % i, kind="row") for i, r in enumerate(rows)]
    c.rng.shuffle(cases)
    g = c.graph(c.tlc("FedSession", constants={"MaxReplies": 2 if c.thorough else 1}, timeout=600).rows)
    ws = g.paths(c.rng, 30, limit=6000)
    for w in ws:
        w["kind"] = "session"
    c.notes["edges"] = {"total": g.nedges, "uncovered": g.uncovered}
    b = c.go_build(["fed_driver.go"])
    c.drive(b, {"cases": cases * (5 if c.thorough else 1) + ws, "burst": 120}, timeout=800)
    c.samples.append([s["a"]["x"] for s in ws[0]["steps"][:8]])
    c.exhaustive = True
    c.assumptions.append("the two networks are stand-ins that hand a message to one random member of each queue group")
