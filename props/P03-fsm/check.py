def run(c):
    cases = []
    res = c.tlc("Fsm", constants={"Depth": 3})
    g = c.graph(res.rows)
    ws = g.paths(c.rng, 14, limit=None if c.thorough else 1400)
    c.rng.shuffle(ws)
    for w in ws:
        w["kind"] = "walk"
    cases += ws
    c.notes["edges"] = {"total": g.nedges, "uncovered": g.uncovered}
    r3 = c.tlc("Fsm", constants={"Depth": 2, "Third": "TRUE"}, timeout=900) if c.thorough else c.tlc(
        "Fsm", constants={"Depth": 6, "Third": "TRUE"}, simulate={"num": 250, "depth": 10})
    if c.thorough:
        g3 = c.graph(r3.rows)
        w3 = g3.paths(c.rng, 10, limit=4000)
    else:
        w3 = []
        cur = None
        g3 = c.graph([dict(r, l=1 if r["f"]["n"] == 0 and r["f"]["s"] == "a" else 2) for r in r3.rows])
        w3 = g3.paths(c.rng, 10, limit=400)
    for w in w3:
        w["kind"] = "walk"
        w["id"] = "t-" + w["id"]
    cases += w3
    d = c.tlc("Def")
    cases.append({"id": "definitions", "kind": "def", "rows": d.rows})
    defs = [w["init"] for w in ws]
    nconc = 600 if c.thorough else 100
    for i in range(nconc):
        plan = [[c.rng.choice(["e1", "e2", "e1", "e2", "nope"]) for _ in range(c.rng.randint(1, 3))] for _ in range(3)]
        cases.append({"id": "conc%d" % i, "kind": "conc", "init": c.rng.choice(defs), "plan": plan})
    b = c.go_build(["fsm_driver.go"])
    r = c.drive(b, {"cases": cases}, timeout=700)
    hists = [x for x in r["rows"] if x.get("t") == "hist"]
    if hists:
        def check(hs):
            t = c.tlc("Conc", data={"hists.json": [{"def": h["def"], "ev": h["ev"]} for h in hs]})
            okset = {row["h"] for row in t.rows}
            return [h for i, h in enumerate(hs) if i + 1 not in okset]
        bad = check(hists)
        c.notes["concurrent_histories"] = len(hists)
        for h in bad[:5]:
            c.mismatch(key="concurrent-history", case=h["case"], step=0, expected="a sequential order of the calls explains the notifications",
                       got=h["ev"], input=h["def"])
    c.samples.append({"walk": ws[0]["id"], "def": ws[0]["init"]["d"], "actions": [[s["a"]["n"], s["a"]["x"]] for s in ws[0]["steps"]]})
    c.assumptions.append("looplab/fsm serialises events")
