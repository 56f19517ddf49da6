def run(c):
    g = c.graph(c.tlc("HttpApi", constants={"Full": "TRUE" if c.thorough else "FALSE"}, timeout=300).rows)
    ws = g.paths(c.rng, 14, limit=None)
    # the host looks at its directories every ten seconds: walks in which it has to come first
    hosts = [w for w in ws if any(s["a"]["x"] in ("remove", "replace") for s in w["steps"])]
    rest = [w for w in ws if not any(s["a"]["x"] in ("remove", "replace") for s in w["steps"])]
    if not c.thorough:
        c.rng.shuffle(hosts)
        hosts, rest = hosts[:150], rest[:250]
    ws = hosts + rest
    for i, w in enumerate(ws):
        w["port"] = 20000 + 5 * i
    c.notes["edges"] = {"total": g.nedges, "walks": len(ws), "replaced": len(hosts)}
    b = c.go_build(["http_driver.go"])
    c.drive(b, {"cases": ws, "parallel": 50}, timeout=800, shards=4)
    c.samples.append([[s["a"]["x"], s["s"]["st"], s["s"]["pos"]] for s in ws[0]["steps"]])
    c.assumptions.append("the HTTP port of the host is free")
