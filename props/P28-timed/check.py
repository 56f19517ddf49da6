import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    ws = []
    for mod, kind, n in (("Timer", "timer", 10), ("Schedule", "schedule", 24)):
        g = c.graph(c.tlc(mod, timeout=300).rows)
        ps = g.paths(c.rng, n, limit=None)
        c.notes[kind] = {"edges": g.nedges, "uncovered": g.uncovered}
        for i, p in enumerate(ps):
            p["id"] = "%s%d" % (kind, i)
            p["kind"] = kind
        ws += ps
    c.rng.shuffle(ws)
    b = c.go_build(["timed_driver.go", os.path.join(LIB, "fakemachine_test.go")])
    c.drive(b, {"cases": ws, "repeat": 60 if c.thorough else 12}, timeout=850, shards=8)
    c.samples.append([[s["a"]["x"], s["a"]["ev"]] for s in ws[0]["steps"]])
    c.exhaustive = True
    c.assumptions.append("virtual clock (testing/synctest): the operating system never delays the process")
