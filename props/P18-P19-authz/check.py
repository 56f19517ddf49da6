import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    pol = c.pid == "P18"
    if pol:
        rows = c.tlc("Policy", constants={"Long": "TRUE" if c.thorough else "FALSE"}, timeout=700).rows
    else:
        rows = c.tlc("Token", timeout=600).rows
    cases = [dict(r, id="a%d" % i) for i, r in enumerate(rows)]
    b = c.go_build(["authz_driver.go", os.path.join(LIB, "tokens_test.go")])
    c.drive(b, {"cases": cases, "policy": cases if pol else [], "token": [] if pol else cases}, timeout=600)
    c.samples.append(cases[0])
    c.notes["granted_rows"] = sum(1 for r in rows if r.get("ok") or r.get("v") == "yes")
    c.exhaustive = True
