import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    rows = c.tlc("KvParse", timeout=200).rows
    cases = [dict(r, id="p%d" % i) for i, r in enumerate(rows)]
    c.notes["edges"] = {}
    for mode, rev in (("poll", 3), ("repub", 4 if c.thorough else 3)):
        g = c.graph(c.tlc("Kv", constants={"Mode": '"%s"' % mode, "MaxRev": rev}, label=mode, timeout=300).rows)
        ws = g.paths(c.rng, 14, limit=None if c.thorough or mode == "repub" else 700)
        for w in ws:
            w["id"] = mode[0] + w["id"]
            w["mode"] = mode
        cases += ws
        c.notes["edges"][mode] = {"total": g.nedges, "uncovered": g.uncovered, "walks": len(ws)}
        c.samples.append([s["a"]["x"] for s in ws[0]["steps"]])
    b = c.go_build(["kv_driver.go", os.path.join(LIB, "fakemachine_test.go")])
    c.drive(b, {"cases": cases, "parallel": 200}, timeout=800)
    c.exhaustive = True
    c.assumptions.append("the key-value store is an embedded NATS server; the interval is probed at less than half and more than 85% of its length")
