import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    rows = c.tlc("ServerProc", timeout=600).rows
    cases = [dict(r, id="s%d" % i) for i, r in enumerate(sorted(rows, key=lambda r: str(r)))]
    slow = [x for x in cases if x["r"]["agent"] in ("slow", "late")]
    cases = [x for x in cases if x["r"]["agent"] not in ("slow", "late")]
    c.rng.shuffle(cases)
    # the slow ones last so that they share the waits
    b = c.go_build(["server_driver.go", os.path.join(LIB, "tokens_test.go")])
    c.drive(b, {"cases": cases + slow}, timeout=800)
    c.samples.append(cases[0])
    c.notes["acted_rows"] = sum(1 for r in rows if r["ran"])
    c.exhaustive = True
