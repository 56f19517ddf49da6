PARTS = ("file", "trigger", "custom", "both")


def run(c):
    walks = []
    for p in PARTS:
        g = c.graph(c.tlc("Registration", constants={"Part": '"%s"' % p}, label=p, timeout=600).rows)
        ws = g.paths(c.rng, 40 if c.thorough else 24, limit=None if c.thorough else 900)
        for i, w in enumerate(ws):
            w["id"] = "%s%d" % (p, i)
        c.notes[p] = {"edges": g.nedges, "walks": len(ws), "uncovered": g.uncovered}
        walks += ws
    rows = [dict(r, id="begin%d" % i) for i, r in enumerate(c.tlc("Begin", timeout=300).rows)]
    c.notes["begin"] = len(rows)
    c.rng.shuffle(walks)
    b = c.go_build(["registration_driver.go"])
    c.drive(b, {"cases": [], "rows": rows}, timeout=300, cases_key="rows")
    c.drive(b, {"cases": walks, "rows": []}, timeout=800, shards=8)
    c.samples.append([s["a"] for s in walks[0]["steps"]])
    c.exhaustive = c.thorough
    c.assumptions.append("virtual clock (testing/synctest): the operating system never delays the process")
