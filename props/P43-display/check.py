def run(c):
    rows = list(c.tlc("Show", timeout=400).rows)
    more = c.tlc("Show", constants={"MaxReplies": 3, "Vs": '{"a", "one", "three", "inf", "list"}' if c.thorough else '{"a", "one"}'}, label="Show3", timeout=600).rows
    if not c.thorough:
        rows = [r for r in rows if len(r["replies"]) < 2] + c.rng.sample([r for r in rows if len(r["replies"]) > 1], 6000)
    rows += c.rng.sample(more, min(len(more), 60000 if c.thorough else 4000))
    for i, r in enumerate(rows):
        r["id"] = "r%d" % i
    b = c.go_build(["display_driver.go"])
    c.drive(b, {"cases": rows}, timeout=800, shards=8)
    c.samples.append(rows[0])
    c.exhaustive = c.thorough
    c.assumptions.append("text is read back line by line; layout, widths and colours are not compared")
