import json, sys
# usage: fixed.py PID COMMIT KEY WHAT
p = "/verif/known_findings.json"
d = json.load(open(p))
pid, com, key, what = sys.argv[1:5]
d["findings"].append({"property": pid, "status": "fixed", "commit": com, "key": key, "what": "fixed: property=%s %s %s" % (pid, com, what)})
json.dump(d, open(p, "w"), indent=1)
