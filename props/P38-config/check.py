import os
PARTS = ("values", "again", "layers", "collectives", "anon", "env", "broken")


def run(c):
    cases = []
    for p in PARTS:
        rows = c.tlc("Config", constants={"Part": '"%s"' % p, "Deep": "TRUE" if c.thorough else "FALSE"}, label=p, timeout=900).rows
        c.notes[p] = len(rows)
        cases += [dict(r, id="%s%d" % (p, i), part=p) for i, r in enumerate(rows)]
    c.rng.shuffle(cases)
    b = c.go_build(["config_driver.go"])
    c.drive(b, {"cases": cases}, timeout=800, shards=8)
    c.samples.append(cases[0])
    c.exhaustive = True
    c.assumptions.append("settings that name one of a few values are only given those values; the identity is always configured")
