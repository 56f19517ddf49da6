import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")
PARTS = ("middleware", "federation", "puppetdb", "peers", "try", "domain", "parse")


def run(c):
    cases = []
    for p in PARTS:
        by = {}
        for r in c.tlc("Servers", constants={"Part": '"%s"' % p}, label=p, timeout=600).rows:
            k = repr(sorted(r["row"].items()))
            x = by.setdefault(k, {"row": r["row"], "dom": r["dom"], "cols": r["cols"], "isfed": r["isfed"], "fns": [], "part": p})
            x["fns"].append({"fn": r["fn"], "out": r["out"], "asked": r["asked"]})
        rows = list(by.values())
        for i, x in enumerate(rows):
            x["fns"].sort(key=lambda f: f["fn"])
            x["id"] = "%s%d" % (p, i)
            x["seed"] = c.rng.randrange(1 << 30)
        c.notes[p] = len(rows)
        cases += rows
    term = {"Term": 3, "MaxTime": 9 if c.thorough else 7, "Names": '{"a", "b"}'}
    g = c.graph(c.tlc("Cache", constants=term, timeout=600).rows)
    ws = g.paths(c.rng, 40 if c.thorough else 30, limit=None if c.thorough else 1500)
    for i, w in enumerate(ws):
        w["id"] = "cache%d" % i
        w["part"] = "cache"
    c.notes["cache"] = {"edges": g.nedges, "walks": len(ws), "uncovered": g.uncovered}
    cases += ws
    c.rng.shuffle(cases)
    b = c.go_build(["servers_driver.go", os.path.join(LIB, "dns_test.go")])
    c.drive(b, {"cases": cases}, timeout=800, shards=8)
    c.samples.append(cases[0].get("row"))
    c.exhaustive = c.thorough
    c.assumptions.append("DNS is a stand-in behind the resolver of the Go library; names that do not exist may also be tried in the domains of the resolver")
