def run(c):
    g = c.graph(c.tlc("Governor").rows)
    ws = g.paths(c.rng, 20, limit=None)
    if not c.thorough:
        # expiring slots takes real time: keep a sample of those walks' tails
        budget, out = 60, []
        for w in ws:
            k = sum(1 for s in w["steps"] if s["a"]["n"] == "expire")
            if k <= budget:
                budget -= k
            else:
                cut = next(i for i, s in enumerate(w["steps"]) if s["a"]["n"] == "expire")
                w["steps"] = w["steps"][:cut]
            if w["steps"]:
                out.append(w)
        c.rng.shuffle(out)
        ws = out[:450]
    c.notes["edges"] = {"total": g.nedges, "uncovered": g.uncovered}
    concs = [{"id": "conc%d" % i, "limit": c.rng.choice([1, 2, 3, 5]), "workers": c.rng.randint(6, 16), "seed": c.rng.randint(1, 10**6), "cancel": i % 2 == 1}
             for i in range(160 if c.thorough else 24)]
    b = c.go_build(["governor_driver.go"])
    r = c.drive(b, {"walks": ws, "concs": concs, "cases": ws + concs}, timeout=800, cases_key="none")
    hs = [x for x in r["rows"] if x.get("t") == "hist"]
    if hs:
        t = c.tlc("Trace", data={"hists.json": [{"limit": h["limit"], "expect": h["expect"], "ev": h["ev"]} for h in hs]})
        ok = {row["h"] for row in t.rows}
        for i, h in enumerate(hs):
            if i + 1 not in ok:
                c.mismatch(key="history", case=h["case"], step=0, expected="never more than %d holders, all served, none left" % h["limit"], got=h["ev"])
    c.notes["histories"] = len(hs)
    c.samples.append([s["a"] for s in ws[0]["steps"]])
    c.assumptions.append("the embedded NATS server enforces the stream limits")
