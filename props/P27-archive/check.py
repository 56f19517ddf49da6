import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    g = c.graph(c.tlc("Archive", timeout=300).rows)
    ws = g.paths(c.rng, 14, limit=None)
    c.notes["edges"] = {"total": g.nedges, "uncovered": g.uncovered}
    b = c.go_build(["archive_driver.go", os.path.join(LIB, "fakemachine_test.go")])
    c.drive(b, {"cases": ws, "parallel": 40}, timeout=850, shards=5)
    c.samples.append([[s["a"]["e"], s["a"]["k"], s["a"]["out"]] for s in ws[0]["steps"]])
    c.exhaustive = True
    c.assumptions.append("no crash of the process between removing the old and moving in the new directory; archives list parent directories before files")
