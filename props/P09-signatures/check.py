import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    rows = c.tlc("Sign", timeout=600).rows
    cases = [dict(r, id="s%d" % i) for i, r in enumerate(rows)]
    b = c.go_build(["sign_driver.go", os.path.join(LIB, "tokens_test.go")])
    c.drive(b, {"cases": cases}, timeout=600)
    c.samples.append(cases[0])
    c.notes["accepted_rows"] = sum(1 for r in rows if r["ok"])
    c.exhaustive = True
