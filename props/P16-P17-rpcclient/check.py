def run(c):
    b = c.go_build(["rpcclient_driver.go"])
    if c.pid == "P16":
        rows = c.tlc("Replies", timeout=600).rows
        lim = None if c.thorough else 6000
        short = [r for r in rows if sum(1 for e in r["script"] if e["e"] == "deliver") <= 1]
        rest = [r for r in rows if sum(1 for e in r["script"] if e["e"] == "deliver") > 1]
        c.rng.shuffle(rest)
        rows2 = short + (rest if lim is None else rest[:lim])
        big = c.tlc("Replies", constants={"MaxNodes": "3", "MaxDeliver": "6"}, simulate={"num": 20000 if c.thorough else 4000, "depth": 12}, label="three").rows
        c.rng.shuffle(big)
        rows2 += big[:20000 if c.thorough else 3000]
        c.exhaustive = lim is None
        c.notes["rows"] = {"two nodes": len(rows), "replayed": len(rows2)}
    else:
        rows2 = c.tlc("Limits").rows
        for n, batch in ((5, 2), (3, 1)):
            r = dict(next(r for r in rows2 if r["r"]["n"] == n and r["r"]["batch"] == batch and r["r"]["limit"]["s"] == "" and r["valid"]))
            rows2.append(dict(r, sleep=1))
        c.exhaustive = True
    c.drive(b, {"cases": [dict(r, id="r%d" % i) for i, r in enumerate(rows2)]}, timeout=850)
