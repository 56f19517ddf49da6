import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    g = c.graph(c.tlc("Gossip", timeout=300).rows)
    ws = g.paths(c.rng, 12, limit=None)
    for i, p in enumerate(ws):
        p["id"] = "g%d" % i
    rows = [dict(r, id="d%d" % i) for i, r in enumerate(c.tlc("Define", timeout=300).rows)]
    c.notes["gossip"] = {"edges": g.nedges, "uncovered": g.uncovered, "definitions": len(rows)}
    c.rng.shuffle(ws)
    b = c.go_build(["gossip_driver.go", os.path.join(LIB, "fakemachine_test.go")])
    c.drive(b, {"cases": [], "rows": rows, "repeat": 1}, timeout=300, cases_key="rows")
    c.drive(b, {"cases": ws, "rows": [], "repeat": 60 if c.thorough else 12}, timeout=800, shards=8)
    c.samples.append([[s["a"]["x"], s["a"]["lo"], s["a"]["hi"]] for s in ws[0]["steps"]])
    c.exhaustive = True
    c.assumptions.append("virtual clock (testing/synctest): the operating system never delays the process")
