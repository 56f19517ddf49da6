def run(c):
    g = c.graph(c.tlc("Prov", constants={"Callers": '{"A", "B"}', "Wide": "TRUE" if c.thorough else "FALSE"}, timeout=600).rows)
    ws = g.paths(c.rng, 40, limit=None)
    lg = c.graph(c.tlc("Lock", timeout=200).rows)
    ls = lg.paths(c.rng, 20, limit=None if c.thorough else 25)
    for w in ls:
        w["id"] = "l" + w["id"]
        w["kind"] = "lock"
    c.notes["edges"] = {"calls": {"total": g.nedges, "uncovered": g.uncovered}, "lock": {"total": lg.nedges, "uncovered": lg.uncovered}}
    b = c.go_build(["prov_driver.go"])
    c.drive(b, {"cases": [{"id": "race", "kind": "race"}] + ls + ws}, timeout=850, shards=6)
    c.samples.append([[s["a"]["x"], s["a"].get("b"), s["a"]["ok"]] for s in ws[0]["steps"][:10]])
    c.exhaustive = True
    c.assumptions.append("restart and shutdown are replaced by recorders; the updater is only exercised up to its first download")
