import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    rows = c.tlc("X509", timeout=300).rows
    c.rng.shuffle(rows)
    n = 64
    cases = [{"id": "rows%d" % i, "kind": "rows", "rows": rows[i::n]} for i in range(n)]
    g = c.graph(c.tlc("Enroll", timeout=120).rows)
    ps = g.paths(c.rng, 24, limit=None)
    if c.thorough:
        ps += g.paths(c.rng, 8, limit=None) + g.paths(c.rng, 40, limit=None)
    for i, p in enumerate(ps):
        p["id"] = "enroll%d" % i
        p["kind"] = "enroll"
    c.notes["rows"] = {k: sum(1 for r in rows if r["r"]["k"] == k) for k in ("verify", "caller", "sign", "tls", "serve")}
    c.notes["enroll"] = {"edges": g.nedges, "uncovered": g.uncovered, "walks": len(ps)}
    c.samples.append(rows[0])
    cases += ps
    c.rng.shuffle(cases)
    b = c.go_build(["certs_driver.go", os.path.join(LIB, "x509_test.go")])
    c.drive(b, {"cases": cases}, timeout=500, shards=8)
    c.exhaustive = True
