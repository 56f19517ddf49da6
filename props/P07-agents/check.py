import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    # histories with three agent instances and two requests at a time
    res = c.tlc("Agents", constants={"MaxGen": 4} if c.thorough else None, timeout=800)
    g = c.graph(res.rows)
    ws = g.paths(c.rng, 14, limit=None if c.thorough else 2600)
    c.rng.shuffle(ws)
    c.notes["edges"] = {"total": g.nedges, "uncovered": g.uncovered}
    b = c.go_build(["agents_driver.go", os.path.join(LIB, "tokens_test.go")])
    c.drive(b, {"cases": ws}, timeout=800)
    c.samples.append({"walk": [[s["a"]["op"], s["a"]["n"], s["a"]["k"], s["a"]["w"]] for s in ws[0]["steps"]]})
    c.exhaustive = g.uncovered == 0
