def run(c):
    g = c.graph(c.tlc("Host", timeout=300).rows)
    ws = g.paths(c.rng, 12, limit=None)
    ticks = lambda w: sum(1 for s in w["steps"] if s["a"]["x"] != "fire")
    # the host looks at its directories every ten seconds: no more than nine times per walk
    for w in ws:
        n = 0
        for i, s in enumerate(w["steps"]):
            n += s["a"]["x"] != "fire"
            if n > 9:
                del w["steps"][i:]
                break
    c.rng.shuffle(ws)
    if not c.thorough:
        # overlapping events are the rarest steps: walks that have one come first
        hard = [w for w in ws if any(s["a"]["x"] == "race" or s["a"].get("storm") for s in w["steps"])]
        easy = [w for w in ws if not any(s["a"]["x"] == "race" or s["a"].get("storm") for s in w["steps"])]
        ws = hard[:160] + easy[:240]
    c.notes["edges"] = {"total": g.nedges, "walks": len(ws), "ticks": sum(map(ticks, ws)), "races": sum(s["a"]["x"] == "race" for w in ws for s in w["steps"]), "storms": sum(bool(s["a"].get("storm")) for w in ws for s in w["steps"])}
    b = c.go_build(["host_driver.go"])
    c.drive(b, {"cases": ws}, timeout=400, shards=8)
    c.samples.append([[s["a"]["x"], s["s"]["content"], s["s"]["st"]] for s in ws[0]["steps"]])
    c.assumptions.append("manifests are not being written while the host reads them")
