def run(c):
    b = c.go_build(["jobs_driver.go"])
    q = c.tlc("JobList").rows
    ids = lambda rows, p: [dict(r, id="%s%d" % (p, i)) for i, r in enumerate(rows)]
    if c.pid == "P23":
        seen, rows = set(), []
        import json
        for r in c.tlc("Jobs", constants={"MaxChunks": "3" if c.thorough else "2"}, timeout=600).rows:
            k = json.dumps(r, sort_keys=True)
            if k not in seen:
                seen.add(k)
                rows.append(r)
        held = [r for r in rows if r["cfg"]["end"] == "held"]
        rest = [r for r in rows if r["cfg"]["end"] != "held"]
        c.rng.shuffle(held)
        c.rng.shuffle(rest)
        n = 9000 if c.thorough else 1500
        rows = [r for r in rest if len(r["script"]) <= 1] + [r for r in rest if len(r["script"]) > 1][:n] + held[:200 if c.thorough else 40]
        c.drive(b, {"cases": ids(rows, "j"), "kind": "job"}, timeout=800)
        c.drive(b, {"cases": ids(q, "q"), "kind": "list"}, timeout=400)
    else:
        e = c.tlc("Executor").rows
        c.drive(b, {"cases": ids(e, "e"), "kind": "exec"}, timeout=400)
        c.drive(b, {"cases": ids(q, "l"), "kind": "agentlist"}, timeout=400)
        c.exhaustive = True
