from vlib import canon

CONFIGS = [  # label, Msgs, MaxScans, WithStuck, Limit
    ("retry", '{"r1","r2","u1"}', 4, "FALSE", 10),
    ("limit", '{"r1","r2","u1"}', 5, "FALSE", 1),
    ("prios", '{"r1","r3","u1","u2"}', 3, "FALSE", 10),
    ("stuck", '{"r1","u1","u2"}', 4, "TRUE", 10),
]


def run(c):
    cases = []
    per = 5000 if c.thorough else 130
    if c.thorough:
        c.tlc("Spool", constants={"MaxScans": 4}, workers=8, timeout=700, label="full")
    for label, msgs, scans, stuck, limit in CONFIGS:
        res = c.tlc("Spool", constants={"Msgs": msgs, "MaxScans": scans, "WithStuck": stuck, "Limit": limit, "Emit": "TRUE"}, label=label)
        g = c.graph(res.rows)
        ws = g.paths(c.rng, 22, limit=per)
        for i, w in enumerate(ws):
            w.update({"id": "%s-%s" % (label, w["id"]), "kind": label, "limit": limit,
                      "trace": label != "stuck" and i < (200 if c.thorough else 40)})
        cases += ws
        c.notes.setdefault("edges", {})[label] = {"total": g.nedges, "uncovered": g.uncovered}
    if c.pid == "P01":
        v = c.tlc("Validate")
        cases.append({"id": "validate", "kind": "validate", "rows": v.rows})
    b = c.go_build(["spool_driver.go"], inpkg=("submission", "submission"))
    n0 = len(c.mismatches)
    r = c.drive(b, {"cases": cases}, nobody=True, timeout=600)
    c.mismatches[n0:] = [m for m in c.mismatches[n0:] if m["key"].startswith(c.pid) or m["key"].startswith(("crash", "hang"))]
    if c.pid == "P01":
        traces = [(x["case"], x["events"]) for x in r["rows"] if x.get("t") == "trace" and x["events"]]
        if traces:
            t = c.tlc("SpoolFiles", data={"traces.json": [e for _, e in traces]})
            c.notes["file_op_traces"] = len(traces)
            c.notes["file_ops"] = sum(len(e) for _, e in traces)
            for row in t.rows[:10]:
                case, ev = traces[row["t"] - 1]
                c.mismatch(key="P01:crash-window", case=case, step=row["i"], expected="every queued message stays whole at every file operation",
                           got=row["bad"], detail=ev[max(0, row["i"] - 4):row["i"]])
    c.samples = c.samples or [{"walk": cases[0]["id"], "steps": [s["a"] for s in cases[0]["steps"]]}]
    c.assumptions += ["file system operations other than removal succeed", "publishing a reliable message from a read-only spool fails are not combined"]
