def run(c):
    c.tlc("Election", constants={"Timely": "TRUE", "Restarts": 1, "Members": '{"m1", "m2", "m3"}' if c.thorough else '{"m1", "m2"}', "Emit": "FALSE"}, label="one leader", timeout=600)
    g = c.graph(c.tlc("Election", constants={"Restarts": 1 if c.thorough else 0}, label="conformance").rows)
    ws = g.paths(c.rng, 14, limit=None)
    c.notes["edges"] = {"total": g.nedges, "uncovered": g.uncovered}
    for tag, consts, num in (("re", {"Restarts": 1}, 200), ("three", {"Restarts": 1, "Members": '{"m1", "m2", "m3"}'}, 1500 if c.thorough else 200)):
        res = c.tlc("Election", constants=consts, simulate={"num": num, "depth": 22}, label=tag)
        g2 = c.graph([dict(r, l=1 if r["f"]["s"]["kv"] == "none" and not any(r["f"]["n"].values()) else 2) for r in res.rows])
        w2 = g2.paths(c.rng, 22, limit=num)
        for w in w2:
            w["id"] = tag + "-" + w["id"]
        ws += w2
    leases = [dict(r, id="lease%d" % i) for i, r in enumerate(c.tlc("Lease").rows)]
    b = c.go_build(["election_driver.go"])
    c.drive(b, {"walks": ws, "leases": leases, "cases": ws + leases}, timeout=700, cases_key="none")
    c.samples.append([s["a"] for s in ws[0]["steps"]])
    c.exhaustive = True
    c.assumptions.append("one leader: no member campaigns twice while another running member does not campaign at all")
