import os
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lib", "go")


def run(c):
    cases = []
    runs = [("a", {"MaxOps": 4, "Vals": '{"str"}'}), ("b", {"MaxOps": 3, "Vals": '{"num","map","nil","empty","false"}'})]
    if c.thorough:
        runs = [("a", {"MaxOps": 5, "Vals": '{"str"}'}), ("b", {"MaxOps": 3, "Vals": '{"str","num","map","nil","empty","false"}'}),
                ("c", {"MaxOps": 4, "Vals": '{"map","nil"}'})]
    for label, consts in runs:
        res = c.tlc("MData", constants=consts, label=label, timeout=800)
        g = c.graph(res.rows)
        ws = g.paths(c.rng, 10, limit=20000 if c.thorough else 2500)
        for i, w in enumerate(ws):
            w["id"] = label + "-" + w["id"]
            # traces only where the driver itself does not touch the file
            w["trace"] = not any(s["a"]["n"] == "corrupt" for s in w["steps"])
        budget = 100
        for w in ws:
            if w["trace"]:
                budget -= 1
                w["trace"] = budget > 0
        cases += ws
        c.notes.setdefault("edges", {})[label] = {"total": g.nedges, "uncovered": g.uncovered}
    b = c.go_build(["mdata_driver.go", os.path.join(LIB, "inotify_test.go")])
    r = c.drive(b, {"cases": cases}, timeout=700)
    traces = [(x["case"], x["events"]) for x in r["rows"] if x.get("t") == "trace" and x["events"]]
    if traces:
        t = c.tlc("MFile", data={"traces.json": [e for _, e in traces]})
        c.notes["file_op_traces"] = len(traces)
        for row in t.rows[:5]:
            case, ev = traces[row["t"] - 1]
            c.mismatch(key="crash-window", case=case, step=row["i"], expected="the data file is only ever replaced as a whole",
                       got=row["bad"], detail=ev[max(0, row["i"] - 5):row["i"] + 1])
    c.samples.append({"walk": cases[0]["id"], "actions": [s["a"] for s in cases[0]["steps"]]})
    c.assumptions.append("rename is atomic; file writes succeed")
