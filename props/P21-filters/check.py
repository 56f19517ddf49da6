def run(c):
    long = {"Long": "TRUE" if c.thorough else "FALSE"}
    rows = c.tlc("Filter", constants=long, timeout=600).rows
    ops = c.tlc("Ops", constants=long, timeout=600).rows
    cases = [dict(r, id="f%d" % i) for i, r in enumerate(rows)]
    oc = [dict(r, id="o%d" % i) for i, r in enumerate(ops)]
    b = c.go_build(["filter_driver.go"])
    c.drive(b, {"cases": cases + oc, "filters": cases, "ops": oc}, timeout=600, cases_key="none")
    c.samples.append(cases[0])
    c.samples.append(oc[0])
    c.exhaustive = True
