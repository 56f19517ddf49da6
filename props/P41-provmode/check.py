import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    rows = c.tlc("Provmode", timeout=300).rows
    c.notes["modes"] = len(rows)
    cases = [dict(r, id="mode%d" % i, kind="mode") for i, r in enumerate(rows)]
    many = {"Ups": "1..60", "Stops": "1..60"} if c.thorough else {"Ups": "{1, 2, 3, 5, 44, 50}", "Stops": "{1, 2, 4, 45}"}
    rows = c.tlc("Targets", constants=many, timeout=300).rows
    c.notes["targets"] = len(rows)
    cases += [dict(r, id="targets%d" % i, kind="targets") for i, r in enumerate(rows)]
    c.rng.shuffle(cases)
    b = c.go_build(["provmode_driver.go", os.path.join(LIB, "tokens_test.go"), os.path.join(LIB, "dns_test.go")])
    c.drive(b, {"cases": cases}, timeout=800, shards=8)
    c.samples.append(cases[0])
    c.exhaustive = True
    c.assumptions.append("DNS is a stand-in behind the resolver of the Go library; pauses between its tries pass on a virtual clock")
