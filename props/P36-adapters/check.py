import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    g = c.graph(c.tlc("Adapter", constants={"MaxMsgs": 5} if c.thorough else None, timeout=600).rows)
    ws = g.paths(c.rng, 12, limit=20000 if c.thorough else 6000)
    rows = [dict(r, id="s%d" % i) for i, r in enumerate(c.tlc("Settings", timeout=300).rows)]
    c.notes["adapters"] = {"edges": g.nedges, "uncovered": g.uncovered, "settings": len(rows)}
    c.rng.shuffle(ws)
    c.rng.shuffle(rows)
    b = c.go_build(["adapter_driver.go"] + [os.path.join(LIB, f) for f in ("tokens_test.go", "x509_test.go")])
    c.drive(b, {"cases": [], "rows": rows}, timeout=600, cases_key="rows", shards=8)
    c.drive(b, {"cases": ws, "rows": []}, timeout=800, shards=8)
    c.samples.append([s["a"]["x"] for s in ws[0]["steps"]])
    c.exhaustive = g.uncovered == 0
    c.assumptions.append("the networks are stand-ins that hand a message to one member of each queue group, and that keep no message")
