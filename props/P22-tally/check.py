def run(c):
    nodes = '{"A.n1", "A.n2", "B.n1"}' if c.thorough else '{"A.n1", "A.n2"}'
    g = c.graph(c.tlc("Tally", constants={"Nodes": nodes}, timeout=800).rows)
    ws = g.paths(c.rng, 60, limit=None)
    if not c.thorough:
        res = c.tlc("Tally", constants={"Nodes": '{"A.n1", "A.n2", "B.n1"}'}, simulate={"num": 300, "depth": 60}, label="three")
        g3 = c.graph([dict(r, l=1 if all(o["v"] == "none" for o in r["f"]["obs"].values()) and r["f"]["lead"] == "1" else 2) for r in res.rows])
        w3 = g3.paths(c.rng, 60, limit=400)
        for w in w3:
            w["id"] = "t-" + w["id"]
        ws += w3
    c.notes["edges"] = {"total": g.nedges, "uncovered": g.uncovered}
    b = c.go_build(["tally_driver.go"], inpkg=("lifecycle/tally", "tally"))
    c.drive(b, {"cases": ws}, timeout=800)
    c.samples.append([s["a"]["x"] for s in ws[0]["steps"][:8]])
    c.exhaustive = True
    c.assumptions.append("events delivered to the recorder's subscription channels; expiry by shifting last-seen times")
