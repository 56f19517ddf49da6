import json


def run(c):
    u = c.tlc("Universe").rows[0]
    perms = c.tlc("Perm", timeout=600).rows
    sets = {}
    pcases = []
    for i, row in enumerate(perms):
        r = row["r"]
        key = json.dumps([r["k"], sorted(r["p"]), r["ou"], r["extra"], sorted(r["cs"])])
        sets[key] = {"pub": row["pub"], "sub": row["sub"], "u": row["u"]}
        if r["k"] in ("client", "server"):
            pcases.append({"id": "p%d" % i, "perm": r, "set": key})

    def setkey(k, p=(), cs=(), ou="choria"):
        key = json.dumps([k, sorted(p), ou, False, sorted(cs)])
        assert key in sets, key
        return key
    acases = []
    for part in ("tokens", "conns", "sys", "prov"):
        res = c.tlc("Auth", constants={"Part": '"%s"' % part}, label=part, timeout=600)
        for i, row in enumerate(res.rows):
            r, v = row["r"], row["v"]
            case = {"id": "%s%d" % (part, i), "r": r, "v": v, "set": ""}
            role = v["role"]
            ou = "acme" if r["token"]["v"] in ("acme", "otherou") else "" if r["token"]["v"] == "noou" else "choria"
            if role == "client":
                case["set"] = setkey("client", ["org"] if r["perm"] == "org" else ["nil"] if r["perm"] == "nil" else
                                     ["sadmin", "suser", "events", "election", "gov", "fleet", "signed"] if r["perm"] == "others" else [])
            elif role == "server":
                if ou == "choria":
                    case["set"] = setkey("server", ["nil"], ["mt"])
            elif role in ("defaultserver", "denied", "pubsub", "provserver", "open"):
                case["set"] = setkey(role)
            acases.append(case)
    if c.pid == "P12":
        cases = acases
    else:
        cases = pcases + acases
    b = c.go_build(["auth_driver.go"], inpkg=("broker/network", "network"))
    c.drive(b, {"cases": cases, "sets": sets, "concrete": u["concrete"], "wild": u["wild"], "pid": c.pid}, timeout=600)
    c.samples.append(cases[0])
    c.notes["admission_rows"] = len(acases)
    c.notes["permission_rows"] = len(pcases)
    c.exhaustive = True
