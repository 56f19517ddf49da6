import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    g = c.graph(c.tlc("Managed", constants={"Few": "FALSE" if c.thorough else "TRUE"}, timeout=300).rows)
    ws = g.paths(c.rng, 7, limit=14000 if c.thorough else 4500)
    c.notes["edges"] = {"total": g.nedges, "uncovered": g.uncovered}
    b = c.go_build(["machines_driver.go", os.path.join(LIB, "fakemachine_test.go")])
    c.drive(b, {"cases": ws, "parallel": 400}, timeout=850, shards=4)
    c.samples.append([[s["a"]["put"]["why"], s["a"]["e"], s["a"]["out"]] for s in ws[0]["steps"]])
    c.assumptions.append("a specification names each machine once and only with plain names")
