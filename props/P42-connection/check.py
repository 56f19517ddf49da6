import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    rows = [dict(r, id="row%d" % i, kind="row") for i, r in enumerate(c.tlc("Connect", timeout=300).rows)]
    c.notes["connect"] = len(rows)
    c.rng.shuffle(rows)
    big = {"MaxFails": 3, "MaxDrops": 3, "MaxOps": 6} if c.thorough else {"MaxFails": 2, "MaxDrops": 2, "MaxOps": 5}
    g = c.graph(c.tlc("Link", constants=big, timeout=600).rows)
    ws = g.paths(c.rng, 16, limit=2500 if c.thorough else 220)
    for i, w in enumerate(ws):
        w["id"] = "walk%d" % i
        w["kind"] = "walk"
        w["dead"] = c.rng.random() < .3
    c.notes["link"] = {"edges": g.nedges, "walks": len(ws), "uncovered": g.uncovered}
    b = c.go_build(["connection_driver.go", os.path.join(LIB, "tokens_test.go"), os.path.join(LIB, "x509_test.go")])
    c.drive(b, {"cases": rows}, timeout=400, shards=8)
    c.drive(b, {"cases": ws}, timeout=800, shards=8)
    c.samples.append(rows[0])
    c.samples.append([s["a"] for s in ws[0]["steps"]])
    c.exhaustive = False
    c.assumptions.append("the broker is a stand-in that speaks the part of the NATS protocol clients use; pauses between tries are real")
