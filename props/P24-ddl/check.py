def run(c):
    rows = c.tlc("Ddl", constants={"Long": "TRUE" if c.thorough else "FALSE"}, timeout=600).rows
    cases = [dict(r, id="d%d" % i) for i, r in enumerate(rows)]
    b = c.go_build(["ddl_driver.go"])
    c.drive(b, {"cases": cases}, timeout=600)
    c.samples.append(cases[0])
    c.notes["admitted_rows"] = sum(1 for r in rows if r["ok"])
    c.exhaustive = True
