"""Common machinery for the model-based checks in /verif.

Every check is: a TLA+ specification checked by TLC (invariants, action properties), whose
behaviours (state graph transitions, or decision tables) are replayed through a Go driver into
the real code of /repo's working tree, and/or whose trace specification validates traces
recorded from the real code.

Outcomes: exit 0 (property held), exit 1 + VIOLATION line (real code disagrees with the
specification, reproduced), exit 2 (error of the check: never a verdict).
"""
import collections
import hashlib
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOROOT_BIN = "/opt/veriftools/go1.25.14/bin"
MODULE = "github.com/choria-io/go-choria"


class CheckError(Exception):
    pass


def goenv(extra=None):
    env = dict(os.environ)
    env.update({
        "HOME": "/root", "USER": "root",
        "PATH": GOROOT_BIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "CGO_ENABLED": "1",
        "GOPATH": "/root/go", "GOCACHE": os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
        "MCOLLECTIVE_CERTNAME": "rip.mcollective",
    })
    env.pop("GOROOT", None)
    if extra:
        env.update(extra)
    return env


class TLCResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.rows = []
        self.out = ""
        self.rc = None
        self.ok = False
        self.coverage = {}


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Check:
    def __init__(self, pid, propdir, level="model_checking"):
        self.pid = pid
        self.dir = propdir
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 7919 + int(hashlib.sha256(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = 0
        self.transitions = 0
        self.replayed = 0
        self.evals = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.mismatches = []
        self.exhaustive = None
        self.known = self._load_known()
        self.crashes = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def _load_known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)).get("findings", []) if k["property"] == self.pid]

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, constants=None, workers=None, simulate=None, timeout=600,
            props=True, extra_files=None, expect_ok=True, dfs=False, coverage=False, heap="4g", label=None,
            data=None):
        """Run TLC on <dir>/<module>.tla with <cfg>. Rows printed as "@@json" are collected."""
        work = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        for f in os.listdir(self.dir):
            if f.endswith(".tla") or f.endswith(".cfg"):
                shutil.copy(os.path.join(self.dir, f), work)
        shared = os.path.join(VERIF, "lib", "tla")
        if os.path.isdir(shared):
            for f in os.listdir(shared):
                shutil.copy(os.path.join(shared, f), work)
        for name, content in (extra_files or {}).items():
            with open(os.path.join(work, name), "w") as fh:
                fh.write(content)
        for name, content in (data or {}).items():
            with open(os.path.join(work, name), "w") as fh:
                if name.endswith(".ndjson"):
                    for row in content:
                        fh.write(json.dumps(row) + "\n")
                else:
                    json.dump(content, fh)
        cfg = cfg or (module + ".cfg")
        if constants:
            with open(os.path.join(work, cfg)) as fh:
                txt = fh.read()
            for k, v in constants.items():
                txt, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(k),
                                 lambda m: m.group(1) + str(v), txt)
                if n == 0:
                    txt += "\nCONSTANT %s = %s\n" % (k, v)
            with open(os.path.join(work, cfg), "w") as fh:
                fh.write(txt)
        java = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
        if dfs:
            java.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd = java + ["-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(work, "md"),
                      "-workers", str(workers or 1), "-config", cfg]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate["num"], "-depth", str(simulate.get("depth", 30)),
                    "-seed", str(self.seed)]
        cmd.append(module + ".tla")
        env = dict(os.environ)
        env["VERIF_SEED"] = str(self.seed)
        try:
            p = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s/%s after %ds" % (module, cfg, timeout))
        res = TLCResult()
        res.rc = p.returncode
        text = p.stdout.decode("utf-8", "replace")
        other = []
        for line in text.splitlines():
            if line.startswith('"@@'):
                res.rows.append(json.loads(json.loads(line)[2:]))
            else:
                other.append(line)
        res.out = "\n".join(other)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", res.out)
        if m:
            res.states = int(m[-1][0].replace(",", ""))
            res.distinct = int(m[-1][1].replace(",", ""))
        elif simulate:
            m = re.findall(r"The number of states generated: ([\d,]+)", res.out)
            if m:
                res.states = int(m[-1].replace(",", ""))
                res.distinct = res.states
        res.ok = p.returncode == 0
        if expect_ok and not res.ok:
            sys.stderr.write(res.out[-6000:] + "\n")
            raise CheckError("TLC rejected the specification %s/%s (rc=%s): the design model is broken, not the code"
                             % (module, cfg, p.returncode))
        self.states += res.distinct
        self.transitions += res.states
        self.notes.setdefault("tlc_runs", []).append(
            {"spec": module, "cfg": label or cfg, "distinct_states": res.distinct, "states_generated": res.states,
             "rows": len(res.rows)})
        shutil.rmtree(work, ignore_errors=True)
        return res

    # ------------------------------------------------------------ behaviours
    def graph(self, rows):
        return Graph(rows)

    # ------------------------------------------------------------------- Go
    def go_build(self, files, pkg=None, race=False, name="harness", inpkg=None, timeout=800):
        """Compile a test binary. files: list of paths (relative to the property dir).
        pkg: new directory below /repo (default zzverif/<pid>); inpkg: existing package directory,
        with package clause name given by inpkg=(dir, pkgname)."""
        over = {}
        if inpkg:
            pdir, pname = inpkg
        else:
            pdir, pname = (pkg or "zzverif/" + self.pid.lower()), "vh"
        gen = os.path.join(self.tmp, "gen-" + name)
        os.makedirs(gen, exist_ok=True)
        helper = open(os.path.join(VERIF, "lib", "go", "helper_test.go")).read()
        helper = re.sub(r"(?m)^package \w+", "package " + pname, helper, count=1)
        hp = os.path.join(gen, "zz_verif_helper_test.go")
        open(hp, "w").write(helper)
        over[os.path.join(REPO, pdir, "zz_verif_helper_test.go")] = hp
        for f in files:
            src = f if os.path.isabs(f) else os.path.join(self.dir, f)
            base = os.path.basename(src)
            if not base.endswith("_test.go"):
                base = base[:-3] + "_test.go"
            over[os.path.join(REPO, pdir, "zz_verif_" + base)] = src
        oj = os.path.join(gen, "overlay.json")
        json.dump({"Replace": over}, open(oj, "w"))
        out = os.path.join(self.tmp, name + ".test")
        cmd = ["go", "test", "-c", "-vet=off", "-o", out, "-overlay", oj]
        if race:
            cmd.append("-race")
        cmd.append("./" + pdir)
        p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if p.returncode != 0 or not os.path.exists(out):
            sys.stderr.write(p.stdout.decode("utf-8", "replace")[-5000:])
            raise CheckError("could not build the driver against /repo")
        return out

    def go_run(self, binary, data, run="TestVerif", timeout=300, env=None, cwd=None, nobody=False, shards=1, cases_key="cases"):
        """Run a driver over data. Returns the result dict written by the driver.

        A crash (panic, fatal error) of the process while a case runs is a result of its own:
        the driver announces each case first, so the crash is attributed to it.

        With shards the cases are spread over that many processes."""
        n = min(shards, len(data.get(cases_key) or []))
        if n > 1:
            def one(i):
                d = dict(data)
                d[cases_key] = data[cases_key][i::n]
                return self.go_run(binary, d, run=run, timeout=timeout, env=env, nobody=nobody)
            with concurrent.futures.ThreadPoolExecutor(n) as ex:
                rs = list(ex.map(one, range(n)))
            rs.sort(key=lambda r: not r["done"])  # one that did not finish comes last
            return {"rc": rs[-1]["rc"], "text": rs[-1]["text"], "rows": [x for r in rs for x in r["rows"]],
                    "wall": max(r["wall"] for r in rs), "done": all(r["done"] for r in rs)}
        work = cwd or tempfile.mkdtemp(prefix="run-", dir=self.tmp)
        inp = os.path.join(work, "in.json")
        outp = os.path.join(work, "out.ndjson")
        json.dump(data, open(inp, "w"))
        if os.path.exists(outp):
            os.unlink(outp)
        e = goenv({"VERIF_IN": inp, "VERIF_OUT": outp, "VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier,
                   "VERIF_WORK": work, "TMPDIR": work})
        if not [k for k in self.known if k.get("status") != "fixed"]:
            # a driver that found something goes on for this long only: what is wrong tends to cost a wait in every case
            e["VERIF_STOP"] = "120" if self.thorough else "45"
        if env:
            e.update(env)
        t0 = time.time()
        pre = None
        if nobody:
            # an unprivileged user that owns nothing but this scratch directory
            os.chmod(self.tmp, 0o755)
            os.chmod(binary, 0o755)
            subprocess.run(["chown", "-R", "65534:65534", work], check=True)
            e["HOME"] = work
            e["USER"] = "nobody"

            def pre():
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
        try:
            p = subprocess.run([binary, "-test.run", "^%s$" % run, "-test.timeout", "%ds" % timeout, "-test.count", "1"],
                               cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 60,
                               preexec_fn=pre)
            rc, text = p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as ex:
            rc, text = -9, (ex.stdout or b"").decode("utf-8", "replace")
        rows = []
        if os.path.exists(outp):
            with open(outp) as fh:
                for line in fh:
                    try:
                        rows.append(json.loads(line))
                    except ValueError:
                        pass
        r = {"rc": rc, "text": text, "rows": rows, "wall": time.time() - t0, "done": rc == 0 and any(x.get("t") == "done" for x in rows)}
        return r

    def drive(self, binary, data, run="TestVerif", timeout=300, env=None, confirm=True, cases_key="cases", crash_is_violation=True,
              nobody=False, shards=1):
        """Run, collect mismatches, and confirm them by running the same cases once more."""
        r = self.go_run(binary, data, run=run, timeout=timeout, env=env, nobody=nobody, shards=shards, cases_key=cases_key)
        mm, crash = self._digest(r)
        if not mm and not crash:
            if not r["done"]:
                sys.stderr.write(r["text"][-5000:] + "\n")
                raise CheckError("driver did not finish (rc=%s)" % r["rc"])
            self._count(r)
            return r
        if confirm:
            ids = {m.get("case") for m in mm}
            if crash and crash.get("case"):
                ids.add(crash["case"])
            sub = dict(data)
            if cases_key in data and isinstance(data[cases_key], list) and ids and None not in ids:
                sel = [c for c in data[cases_key] if c.get("id") in ids]
                if sel:
                    sub[cases_key] = sel
            r2 = self.go_run(binary, sub, run=run, timeout=timeout, env=env, nobody=nobody, shards=shards, cases_key=cases_key)
            mm2, crash2 = self._digest(r2)
            k2 = {(m.get("case"), m.get("key")) for m in mm2}
            c2 = {m.get("case") for m in mm2}
            conf = [m for m in mm if (m.get("case"), m.get("key")) in k2] or [m for m in mm if m.get("case") in c2]
            if crash and crash2:
                if crash_is_violation:
                    conf.append(crash)
                else:
                    raise CheckError("driver crashed: " + crash.get("got", "")[-2000:])
            if not conf:
                # not reproduced with the selection alone: run everything again
                r3 = self.go_run(binary, data, run=run, timeout=timeout, env=env, nobody=nobody, shards=shards, cases_key=cases_key)
                mm3, crash3 = self._digest(r3)
                k3 = {(m.get("case"), m.get("key")) for m in mm3}
                conf = [m for m in mm if (m.get("case"), m.get("key")) in k3]
                if crash and crash3 and crash_is_violation:
                    conf.append(crash)
                if not conf:
                    if not mm3 and not crash3 and r3["done"]:
                        # neither the selection nor the full run showed it again: not a verdict
                        self.notes.setdefault("unreproduced", []).extend([m.get("key") for m in mm[:5]])
                        sys.stderr.write("note: %d mismatches did not reproduce and are not reported: %s\n"
                                         % (len(mm), json.dumps(mm[:2])[:1500]))
                        self._count(r3)
                        return r3
                    sys.stderr.write(json.dumps(mm[:3])[:3000] + "\n" + r["text"][-3000:])
                    raise CheckError("mismatches were not stable across runs")
            mm, crash = conf, None
        elif crash:
            mm = mm + [crash]
        self._count(r)
        cases = {}
        if isinstance(data.get(cases_key), list):
            cases = {c.get("id"): c for c in data[cases_key] if isinstance(c, dict)}
        for m in mm:
            m["input"] = cases.get(m.get("case"))
            self.mismatches.append(m)
        return r

    def _digest(self, r):
        mm = [x for x in r["rows"] if x.get("t") == "mismatch"]
        crash = None
        err = [x for x in r["rows"] if x.get("t") == "error"]
        if err:
            sys.stderr.write(json.dumps(err[:3]) + "\n")
            raise CheckError("driver error: " + err[0].get("msg", "")[:500])
        if not r["done"]:
            last = None
            for x in r["rows"]:
                if x.get("t") == "case":
                    last = x
            text = r["text"]
            m = re.search(r"(?m)^(panic: .*|fatal error: .*|WARNING: DATA RACE)$", text)
            timed = "panic: test timed out" in text or r["rc"] == -9
            if m and last is not None:
                if timed:
                    crash = {"t": "mismatch", "case": last.get("case"), "key": "hang",
                             "expected": "the step completes", "got": "driver timed out inside this case",
                             "detail": text[-3000:]}
                else:
                    crash = {"t": "mismatch", "case": last.get("case"), "key": "crash:" + m.group(1)[:120],
                             "expected": "no crash", "got": m.group(1), "detail": text[-4000:]}
        return mm, crash

    def _count(self, r):
        for x in r["rows"]:
            if x.get("t") == "done":
                self.replayed += int(x.get("cases", 0))
                self.evals += int(x.get("steps", 0))
                for s in x.get("samples") or []:
                    if len(self.samples) < 6:
                        self.samples.append(s)
                for k, v in (x.get("counters") or {}).items():
                    c = self.notes.setdefault("counters", {})
                    c[k] = c.get(k, 0) + v

    def mismatch(self, **kw):
        self.mismatches.append(kw)

    # -------------------------------------------------------------- finish
    def finish(self):
        unlisted, listed = [], []
        for m in self.mismatches:
            key = str(m.get("key", ""))
            hit = None
            for k in self.known:
                if k.get("status") == "fixed":
                    continue
                if re.fullmatch(k["key"], key):
                    hit = k
                    break
            (listed if hit else unlisted).append(m)
        for k in self.known:
            if k.get("status") != "fixed":
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        replay = None
        if unlisted:
            replay = os.path.join(rdir, "%s.json" % self.pid)
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "violations": unlisted[:50]},
                      open(replay, "w"), indent=1, default=str)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.replayed, "impl_steps_compared": self.evals,
               "samples": self.samples[:6]}
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(unlisted)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        if unlisted:
            for m in unlisted[:5]:
                sys.stdout.write("mismatch key=%s case=%s step=%s\n  expected: %s\n  got: %s\n" % (
                    m.get("key"), m.get("case"), m.get("step"), str(m.get("expected"))[:600], str(m.get("got"))[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        print("OK property=%s tier=%s seed=%d states=%d replayed=%d steps=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, self.states, self.replayed, self.evals, time.time() - self.t0))
        return 0

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            sys.stderr.write("kept %s\n" % self.tmp)
            return
        subprocess.run(["chmod", "-R", "u+rwX", self.tmp], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.tmp, ignore_errors=True)


class Graph:
    """State graph emitted by TLC as rows {l, f, a, t} (level, from, action, to)."""

    def __init__(self, rows):
        self.succ = collections.OrderedDict()
        self.init = []
        self.state = {}
        seen = set()
        for r in rows:
            f, t = canon(r["f"]), canon(r["t"])
            self.state[f] = r["f"]
            self.state[t] = r["t"]
            e = (f, canon(r["a"]), t)
            if r.get("l") == 1 and f not in self.init:
                self.init.append(f)
            if e in seen:
                continue
            seen.add(e)
            self.succ.setdefault(f, []).append((r["a"], t, len(seen) - 1))
        self.nedges = len(seen)

    def paths(self, rng, maxlen, limit=None, cover=True, extra=0):
        """Walks from initial states; greedy on uncovered edges until all are covered (or limit)."""
        # BFS distance to nearest uncovered edge is costly; use shortest prefix tree + greedy walk.
        parent = {}
        order = []
        for i in self.init:
            parent[i] = None
            order.append(i)
        qi = 0
        while qi < len(order):
            f = order[qi]
            qi += 1
            for a, t, eid in self.succ.get(f, []):
                if t not in parent:
                    parent[t] = (f, a, eid)
                    order.append(t)
        uncovered = set(range(self.nedges)) if cover else set()
        by_src = {f: [x for x in s] for f, s in self.succ.items()}
        todo = [f for f in order if f in by_src]
        rng.shuffle(todo)
        out = []

        def prefix(f):
            p = []
            while parent[f] is not None:
                pf, a, eid = parent[f]
                p.append((a, f, eid))
                f = pf
            p.reverse()
            return f, p

        def walk(f0, pre):
            steps = list(pre)
            cur = steps[-1][1] if steps else f0
            while len(steps) < maxlen:
                s = by_src.get(cur)
                if not s:
                    break
                fresh = [x for x in s if x[2] in uncovered]
                x = rng.choice(fresh) if fresh else rng.choice(s)
                steps.append(x)
                uncovered.discard(x[2])
                cur = x[1]
            for x in steps:
                uncovered.discard(x[2])
            return {"init": self.state[f0], "steps": [{"a": a, "s": self.state[t]} for a, t, _ in steps]}

        idx = 0
        while uncovered and (limit is None or len(out) < limit):
            while idx < len(todo) and not any(x[2] in uncovered for x in by_src[todo[idx]]):
                idx += 1
            if idx >= len(todo):
                break
            f0, pre = prefix(todo[idx])
            if len(pre) >= maxlen:
                # one edge past the prefix so that deep edges are covered too
                fresh = [x for x in by_src[todo[idx]] if x[2] in uncovered]
                x = fresh[0]
                uncovered.discard(x[2])
                st = pre + [x]
                for y in st:
                    uncovered.discard(y[2])
                out.append({"init": self.state[f0], "steps": [{"a": a, "s": self.state[t]} for a, t, _ in st]})
                continue
            out.append(walk(f0, pre))
        for _ in range(extra):
            out.append(walk(rng.choice(self.init), []))
        for i, p in enumerate(out):
            p["id"] = "w%d" % i
        self.uncovered = len(uncovered)
        return out


def main(argv):
    import importlib.util
    pid = argv[1]
    d = None
    for n in sorted(os.listdir(os.path.join(VERIF, "props"))):
        if pid in n.split("-"):
            d = os.path.join(VERIF, "props", n)
    if d is None:
        sys.stderr.write("no such property %s\n" % pid)
        return 2
    spec = importlib.util.spec_from_file_location("check_" + pid, os.path.join(d, "check.py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    c = Check(pid, d)
    try:
        mod.run(c)
        return c.finish()
    except CheckError as ex:
        sys.stderr.write("CHECK-ERROR property=%s %s\n" % (pid, ex))
        # a confirmed disagreement found before the error still stands
        if any(True for _ in c.mismatches):
            rc = c.finish()
            if rc == 1:
                return 1
        return 2
    finally:
        c.cleanup()


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    import vlib
    sys.exit(vlib.main(sys.argv))
