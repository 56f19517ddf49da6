import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")
PARTS = ("filters", "groups", "files", "flat", "external", "window")


def run(c):
    cases = []
    for p in PARTS:
        rows = c.tlc("Discover", constants={"Part": '"%s"' % p, "MaxItems": 3 if c.thorough and p == "filters" else 2}, label=p, timeout=900).rows
        c.notes[p] = len(rows)
        if p == "groups" and not c.thorough:
            rows = c.rng.sample(rows, 700)
        cases += [dict(r, id="%s%d" % (p, i), part=p) for i, r in enumerate(rows)]
    c.rng.shuffle(cases)
    b = c.go_build(["discover_driver.go", os.path.join(LIB, "x509_test.go")])
    c.drive(b, {"cases": cases}, timeout=800, shards=8)
    c.samples.append(cases[0])
    c.exhaustive = True
    c.assumptions.append("PuppetDB is a stand-in that evaluates the queries it is sent over a fixed fleet; the network is a stand-in that delivers the answers of the nodes that match")
