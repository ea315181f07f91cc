#!/usr/bin/env python3
"""Decides one property: explores its models with TLC, replays behaviours of the
models and random ones on the real code, and validates what the code did against
the specification with TLC.

  check.py ID              (VERIF_SEED, VERIF_TIER in the environment)
  check.py ID --replay F   runs a recorded counterexample again

Exit 0: held; 1: violated (a VIOLATION line is printed); 2: the check is broken.
"""
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
sys.path.insert(0, os.path.join(HERE, "tools"))
import gen  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8
REPO = os.environ.get("VERIF_REPO", "/repo")


def M(module, **consts):
    return (module, consts)


# models: explored by quick; deep: by thorough, in addition.
# mc, rnd: scripts replayed, of the models and random ones (quick, thorough).
# canaries: how a trace is corrupted to see that the specification minds.
PLAN = {
    "C01": dict(models=[M("MCBuild", Domain="core")], deep=[M("MCBuild", Domain="dup"), M("MCBuild", Domain="join"), M("MCBuild", Domain="nest"), M("MCHist", Domain="clauses")], canaries=["args", "err"]),
    "C02": dict(models=[M("MCBuild", Domain="core")], deep=[M("MCBuild", Domain="nest"), M("MCBuild", Domain="dup"), M("MCHist", Domain="joins")], canaries=["dargs", "dtext"]),
    "C03": dict(models=[M("MCBuild", Domain="dup")], deep=[M("MCBuild", Domain="core"), M("MCHist", Domain="clauses")], canaries=["args"]),
    "C04": dict(models=[M("MCSyntax")], deep=[M("MCBuild", Domain="dress"), M("MCBuild", Domain="core")], canaries=["text", "err"]),
    "C05": dict(models=[M("MCSyntax")], deep=[], canaries=["expr", "err", "ok"]),
    "C06": dict(models=[M("MCBuild", Domain="nest")], deep=[M("MCBuild", Domain="core"), M("MCBuild", Domain="join")], canaries=["args", "text", "err", "ok"]),
    "C07": dict(models=[M("MCBuild", Domain="join")], deep=[M("MCBuild", Domain="core"), M("MCBuild", Domain="nest")], canaries=["text", "args", "err", "ok"]),
    "C08": dict(models=[M("MCBuild", Domain="core")], deep=[M("MCBuild", Domain="nest"), M("MCBuild", Domain="join"), M("MCBuild", Domain="trap")], canaries=["ok"]),
    "C09": dict(models=[M("MCBuild", Domain="dress")], deep=[M("MCHist", Domain="frag")], canaries=["text", "err"]),
    "C10": dict(models=[M("MCHist", Domain="frag")], deep=[], canaries=["text", "args", "frag"]),
    "C11": dict(models=[M("MCConc", Grain="gate")], deep=[M("MCConc", Grain="step")], canaries=["conc"]),
    "C12": dict(models=[M("MCBuild", Domain="trap")], deep=[M("MCBuild", Domain="call"), M("MCSyntax"), M("MCHist", Domain="misuse"), M("MCRows"), M("MCFlat")], canaries=["panic"]),
    "C13": dict(models=[M("MCBuild", Domain="call")], deep=[], canaries=["text", "log", "err", "ok"]),
    "C14": dict(models=[M("MCHist", Domain="ctx")], deep=[], canaries=["text", "err", "ok"]),
    "C15": dict(models=[M("MCHist", Domain="ctx"), M("MCHist", Domain="given")], deep=[], canaries=["args", "drop", "err"]),
    "C16": dict(models=[M("MCHist", Domain="clauses")], deep=[M("MCHist", Domain="joins"), M("MCHist", Domain="order"), M("MCHist", Domain="ctes")], canaries=["text", "args", "err"]),
    "C17": dict(models=[M("MCHist", Domain="joins")], deep=[M("MCHist", Domain="order")], canaries=["join", "err"]),
    "C18": dict(models=[M("MCHist", Domain="ctes")], deep=[], canaries=["cte", "err"]),
    "C19": dict(models=[M("MCHist", Domain="misuse")], deep=[M("MCHist", Domain="joins")], canaries=["err", "ok"]),
    "C20": dict(models=[M("MCHist", Domain="builds")], deep=[], canaries=["text", "args"]),
    "C21": dict(models=[M("MCHist", Domain="order")], deep=[M("MCHist", Domain="clauses")], canaries=["order", "args", "err"]),
    "C22": dict(models=[M("MCFlat")], deep=[], canaries=["args", "err"]),
    "C23": dict(models=[M("MCInterp")], deep=[], canaries=["text", "err", "ok"]),
    "C24": dict(models=[M("MCRows")], deep=[], canaries=["scanrows", "open", "err", "ok"]),
}
MC_CAP = {"quick": 3500, "thorough": 60000}
RND = {"quick": 8000, "thorough": 60000}
RND_FREE = {"quick": 60, "thorough": 1500}
WEIGHT = {"C20": 0.5, "C10": 0.8, "C11": 0.25, "C14": 0.6, "C15": 0.6, "C16": 0.6, "C17": 0.6, "C18": 0.6, "C19": 0.8, "C21": 0.6, "C24": 0.7}
FRESH = {"C10", "C20"}


class Broken(Exception):
    """The check itself doesn't work."""


# ------------------------------------------------------------------- processes

def java(module, cfg, metadir, deep=False):
    return (["java", "-XX:+UseSerialGC"] + ([] if deep else ["-XX:TieredStopAtLevel=1"]) +
            ["-Xmx3g", "-Xss256m", "-Dfile.encoding=UTF-8", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
             "-noGenerateSpecTE", "-workers", "1", "-metadir", metadir, "-config", cfg, os.path.join(SPEC, module + ".tla")])


def environment(**kw):
    env = {k: v for k, v in os.environ.items() if k not in ("GOFLAGS", "EAGER", "OP_TIMEOUT")}
    env.update(kw)
    return env


def build_driver(tmp, race=False):
    src = os.path.join(tmp, "harness")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(HERE, "harness"), src)
        mod = os.path.join(src, "go.mod")
        text = open(mod).read().replace("=> /repo", "=> " + REPO)
        open(mod, "w").write(text)
    out = os.path.join(tmp, "driver_race" if race else "driver")
    p = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], cwd=src,
                       env=environment(GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off"), capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken("the driver does not build against the repository:\n" + p.stdout + p.stderr)
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Driver:
    """Runs scripts on the real code, restarted after whatever kills it."""

    def __init__(self, path, tmp, race=False):
        self.path, self.tmp, self.race, self.n = path, tmp, race, 0

    def start(self, scripts, **env):
        self.n += 1
        base = os.path.join(self.tmp, "run%d" % self.n)
        with open(base + ".in", "w", encoding="utf8") as f:
            for s in scripts:
                f.write(json.dumps(s, ensure_ascii=False) + "\n")
        if self.race:
            env["GORACE"] = "halt_on_error=1 exitcode=66"
        return base, subprocess.Popen([self.path], stdin=open(base + ".in"), stdout=open(base + ".out", "w"),
                                      stderr=open(base + ".err", "w"), env=environment(**env), preexec_fn=None if self.race else limits)

    def traces(self, base):
        out = []
        with open(base + ".out", encoding="utf8", errors="replace") as f:
            for l in f:
                if l.startswith("{") and l.endswith("\n"):
                    out.append(json.loads(l))
        return out

    def culprit(self, script, code):
        """The script which killed the driver, up to the call which did it."""
        res = {"s": "race" if code == 66 else "crash", "args": [], "log": [], "t": ""}
        if self.race:
            k = next((i for i, o in enumerate(script["ops"]) if o["op"] == "conc"), len(script["ops"]) - 1)
            base = None
            evs = [dict(o, res={"s": "ok", "args": [], "log": [], "t": ""}) for o in script["ops"][:k]]
        else:
            base, p = self.start([script], EAGER="1", OP_TIMEOUT="40")
            self.wait(p, 120)
            evs = []
            with open(base + ".out", encoding="utf8", errors="replace") as f:
                for l in f:
                    if l.startswith("EV ") and l.endswith("\n"):
                        evs.append(json.loads(l[3:]))
            done = self.traces(base) if p.returncode in (0, 3) else []
            if done:   # it does return, alone
                return done[-1]
            k = min(len(evs), len(script["ops"]) - 1)
            evs = evs[:k]
        return {"id": script["id"], "ev": evs + [dict(script["ops"][k], res=res, fresh=res)]}

    def wait(self, p, timeout):
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()

    def run(self, scripts, parallel=CORES, timeout=600):
        """Traces of the scripts, in their order."""
        if not scripts:
            return []
        got = {}
        todo = [scripts[k::parallel] for k in range(parallel)]
        deadline = time.time() + timeout
        kills = 0
        while any(todo):
            ps = [(k,) + self.start(todo[k]) for k in range(parallel) if todo[k]]
            for k, base, p in ps:
                self.wait(p, max(1, deadline - time.time()))
                for t in self.traces(base):
                    got[t["id"]] = t
                rest = [s for s in todo[k] if s["id"] not in got]
                if p.returncode == 2 and not self.race:
                    raise Broken("harness error: " + open(base + ".err").read()[-2000:])
                if p.returncode not in (0, 3) and rest:
                    if p.returncode == 2 and "harness error" in open(base + ".err").read():
                        raise Broken("harness error: " + open(base + ".err").read()[-2000:])
                    if time.time() >= deadline:
                        raise Broken("the driver takes too long")
                    t = self.culprit(rest[0], p.returncode)
                    t["stderr"] = open(base + ".err", errors="replace").read()[-3000:]
                    got[t["id"]] = t
                    rest = rest[1:]
                    kills += 1
                elif p.returncode == 3:
                    kills += 1
                elif p.returncode == 0 and rest:
                    raise Broken("the driver left scripts out")
                todo[k] = rest if kills < 24 else []   # enough is known
        return [got[s["id"]] for s in scripts if s["id"] in got]


# ------------------------------------------------------------------------- TLC

def printed(path, tag):
    """The JSON values printed by the specification with a tag."""
    with open(path, encoding="utf8", errors="replace") as f:
        for l in f:
            if l.startswith('"@' + tag + " "):
                yield json.loads(json.loads(l)[len(tag) + 2:])


def start_model(prop, model, tmp, seed, tier, keep):
    module, consts = model
    d = os.path.join(tmp, "mc", module + "-" + "-".join(consts.values()))
    os.makedirs(d)
    cfg = open(os.path.join(SPEC, module + ".cfg")).read()
    for c, v in consts.items():
        cfg, n = re.subn(r"(?m)^  %s = .*$" % c, '  %s = "%s"' % (c, v), cfg)
        if n != 1:
            raise Broken("no constant " + c)
    open(os.path.join(d, "m.cfg"), "w").write(cfg)
    ps = []
    for k in range(CORES):
        env = environment(VERIF_SHARDS=str(CORES), VERIF_SHARD=str(k), VERIF_SEED=str(seed), VERIF_TIER=tier,
                          VERIF_PROP=prop, VERIF_KEEP=str(keep))
        ps.append(subprocess.Popen(java(module, os.path.join(d, "m.cfg"), os.path.join(d, "m%d" % k), tier == "thorough"),
                                   env=env, stdout=open(os.path.join(d, "%d.out" % k), "w"), stderr=subprocess.STDOUT, cwd=d))
    return d, ps


def finish_model(model, d, ps, timeout):
    deadline = time.time() + timeout
    gen_, dist, scripts = 0, 0, []
    try:
        for p in ps:
            p.wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        for p in ps:
            p.kill()
        raise Broken("the model %s takes too long" % (model,))
    for k in range(len(ps)):
        path = os.path.join(d, "%d.out" % k)
        text = []
        with open(path, encoding="utf8", errors="replace") as f:
            for l in f:
                if not l.startswith('"@'):
                    text.append(l)
        text = "".join(text)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if "No error has been found" not in text or not m:
            raise Broken("the model %s fails:\n%s" % (model, text[-4000:]))
        gen_, dist = gen_ + int(m[-1][0]), dist + int(m[-1][1])
        scripts += list(printed(path, "S"))
    shutil.rmtree(d)
    return gen_, dist, scripts


def validate(prop, traces, tmp, tag, deep=False, timeout=3000):
    """Judges traces by the specification: (bad calls, counts per trace)."""
    d = os.path.join(tmp, "tv-" + tag)
    os.makedirs(d)
    shards = [[] for _ in range(CORES)]
    size = [0] * CORES
    for t in traces:
        line = json.dumps(t, ensure_ascii=False)
        k = size.index(min(size))
        size[k] += len(line) + 500
        shards[k].append(line)
    ps = []
    for k, lines in enumerate(shards):
        if not lines:
            continue
        f = os.path.join(d, "%d.ndjson" % k)
        open(f, "w", encoding="utf8").write("".join(l + "\n" for l in lines))
        ps.append((k, subprocess.Popen(java("Trace", os.path.join(SPEC, "Trace.cfg"), os.path.join(d, "m%d" % k), deep),
                                       env=environment(VERIF_TRACES=f, VERIF_PROP=prop), cwd=d,
                                       stdout=open(os.path.join(d, "%d.out" % k), "w"), stderr=subprocess.STDOUT)))
    bad, ends = [], {}
    deadline = time.time() + timeout
    for k, p in ps:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            for _, q in ps:
                q.kill()
            raise Broken("trace validation takes too long")
        path = os.path.join(d, "%d.out" % k)
        ids = [json.loads(l)["id"] for l in shards[k]]
        for b in printed(path, "BAD"):
            bad.append(b)
        seen = set()
        for e in printed(path, "END"):
            ends[ids[e["s"] - 1]] = e["n"]
            seen.add(ids[e["s"] - 1])
        if p.returncode != 0 or set(ids) - seen:
            text = "".join(l for l in open(path, encoding="utf8", errors="replace") if not l.startswith('"@'))
            raise Broken("trace validation fails (%s):\n%s" % (p.returncode, text[-4000:]))
    shutil.rmtree(d)
    return bad, ends


# --------------------------------------------------------------------- canaries

def corrupt(ev, kind, r):
    """Spoils what a call returned, None if it doesn't apply."""
    e = json.loads(json.dumps(ev))
    o = e["res"]
    if o["s"] not in ("ok", "err"):
        return None
    canary = {"t": "string", "v": "canary"}
    if kind == "err":
        if o["s"] != "ok" or e["op"] in ("def", "mut", "qb", "ctx", "both", "conc", "interpq"):
            return None
        o.update(s="err", t="", args=[])
    elif kind == "ok":
        if o["s"] != "err":
            return None
        o.update(s="ok", t="canary")
        if e["op"] == "parse":
            o["exprs"] = []
    elif kind == "panic":
        o["s"] = "panic"
    elif kind in ("text", "order", "join", "cte"):
        if o["s"] != "ok" or not o.get("t") or e["op"] not in ("build", "query", "interp", "commit"):
            return None
        a, b = {"text": (o["t"], o["t"] + " canary"), "order": ("ORDER BY ", "ORDER BY canary, "), "join": (" JOIN ", " J0IN "),
                "cte": (" AS (SELECT", " AZ (SELECT")}[kind]
        if a not in o["t"]:
            return None
        o["t"] = o["t"].replace(a, b)
    elif kind in ("args", "drop"):
        if not o.get("args") or o["s"] != "ok":
            return None
        i = r.randrange(len(o["args"]))
        if kind == "args":
            o["args"][i] = canary
        else:
            o["args"].pop()
    elif kind in ("dargs", "dtext"):
        if e["op"] != "both" or o["d"]["s"] != "ok" or o["q"]["s"] != "ok":
            return None
        if kind == "dtext":
            o["d"]["t"] += " canary"
        elif o["d"]["args"]:
            o["d"]["args"][0] = canary
        else:
            return None
    elif kind == "expr":
        if e["op"] != "parse" or o["s"] != "ok" or not o["exprs"]:
            return None
        o["exprs"].pop()
    elif kind == "frag":
        if e["op"] != "insp":
            return None
        o["frag"]["raw"] += "canary"
    elif kind == "log":
        if not o.get("log"):
            return None
        o["log"][0]["args"] = o["log"][0]["args"] + ["canary"]
    elif kind == "conc":
        if e["op"] != "conc":
            return None
        o["rs"][0]["t"] += "canary"
    elif kind == "scanrows":
        if e["op"] != "scan" or not o["scan"]["rows"]:
            return None
        o["scan"]["rows"].pop()
    elif kind == "open":
        if e["op"] != "scan" or not o["scan"]["opened"]:
            return None
        o["scan"]["closed"] = 0
    else:
        raise Broken("unknown canary " + kind)
    return e if e != ev else None


def canaries(prop, traces, r, each=32):
    out = []
    skip = {"def", "mut", "qb", "ctx"}
    skip |= set() if prop in ("C12", "C22") else {"flat"}
    skip |= set() if prop in ("C12", "C13", "C14") else {"ctxf"}
    for kind in PLAN[prop]["canaries"]:
        n = 0
        for t in r.sample(traces, min(len(traces), 600)):
            idx = list(range(len(t["ev"])))
            r.shuffle(idx)
            for i in idx:
                if t["ev"][i]["op"] in skip:
                    continue
                e = corrupt(t["ev"][i], kind, r)
                if e is not None:
                    out.append({"id": "canary/%s/%d" % (kind, n), "ev": t["ev"][:i] + [e]})
                    n += 1
                    break
            if n >= each:
                break
    return out


# ------------------------------------------------------------------------ check

def signature(script):
    return hashlib.sha256(json.dumps(script["ops"], sort_keys=True, ensure_ascii=False).encode()).hexdigest()[:16]


def known_findings(prop):
    """Open findings: {signature of the script: description}."""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path, encoding="utf8"):
            m = re.match(r"open: property=(\S+) script=(\S+) (.*)", l)
            if m and m[1] == prop:
                out[m[2]] = m[3]
    return out


def strip(trace):
    return [{k: v for k, v in e.items() if k not in ("res", "fresh")} for e in trace["ev"]]


def check(prop, tier, seed, tmp):
    t0 = time.time()
    plan = PLAN[prop]
    deep = tier == "thorough"
    r = random.Random("%s/%d" % (prop, seed))
    cov = {"states": 0, "transitions": 0, "models": {}}

    driver = Driver(build_driver(tmp), tmp)
    weight = WEIGHT.get(prop, 1)
    nrnd = int(RND[tier] * weight)

    # models
    scripts = []
    cap = int(MC_CAP[tier] * weight)
    models = plan["models"] + (plan["deep"] if deep else [])
    rnd = None
    for model in models:
        d, ps = start_model(prop, model, tmp, seed, tier, 17 if deep else 1)
        if rnd is None:
            rnd = gen.scripts(prop, seed, nrnd)
        g, n, out = finish_model(model, d, ps, 7200 if deep else 500)
        name = model[0] + "".join("(%s)" % v for v in model[1].values())
        cov["models"][name] = {"states": n, "transitions": g, "behaviours": len(out)}
        cov["states"] += n
        cov["transitions"] += g
        if n < 100:
            raise Broken("the model %s has next to no states" % name)
        share = max(1, cap // len(models))
        if len(out) > share:
            out = r.sample(out, share)
        cov["models"][name]["replayed"] = len(out)
        # several behaviours of one call make one script
        k = 8 if model[0] in ("MCSyntax", "MCInterp", "MCRows") or model[0] == "MCBuild" and model[1]["Domain"] not in ("join", "call", "trap") else 1
        for i in range(0, len(out), k):
            scripts.append({"id": "%s/%d" % (name, i), "fresh": prop in FRESH, "ops": sum(out[i:i + k], [])})
    t1 = time.time()

    # the real code
    scripts += rnd
    traces = driver.run(scripts, timeout=300 if not deep else 3000)
    if prop == "C11":
        racer = Driver(build_driver(tmp, race=True), tmp, race=True)
        free = gen.scripts("C11free", seed, RND_FREE[tier])
        for s in free:
            s["id"] = "free/" + s["id"]
        scripts += free
        traces += racer.run(free, parallel=4, timeout=300 if not deep else 3000)
        cov["free_running"] = len(free)
    byid = {s["id"]: s for s in scripts}
    t2 = time.time()

    # validation
    birds = canaries(prop, traces, r)
    judged = [{"id": t["id"], "ev": t["ev"]} for t in traces]
    bad, ends = validate(prop, judged + birds, tmp, "main", deep)
    t3 = time.time()

    counts = {"ok": 0, "vac": 0, "bad": 0}
    for i, n in ends.items():
        if not i.startswith("canary/"):
            for k in counts:
                counts[k] += n[k]
    caught = {}
    for b in birds:
        kind = b["id"].split("/")[1]
        caught.setdefault(kind, [0, 0])[1] += 1
        caught[kind][0] += ends[b["id"]]["bad"] > 0
    bad = [b for b in bad if not b["id"].startswith("canary/")]

    # violations, confirmed by running them again alone
    known = known_findings(prop)
    violations = 0
    reported = set()
    tid = {t["id"]: t for t in traces}
    order = sorted({b["id"]: b for b in reversed(bad)}.values(), key=lambda b: (len(json.dumps(tid[b["id"]]["ev"][:b["l"]])), b["id"]))
    for b in order[:40]:
        t = tid[b["id"]]
        s = {"id": b["id"], "fresh": byid[b["id"]]["fresh"], "ops": byid[b["id"]]["ops"][:b["l"]]}
        sig = signature(s)
        if sig in reported:
            continue
        reported.add(sig)
        if sig in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[sig]))
            continue
        racy = b["id"].startswith("free/")
        res = t["ev"][b["l"] - 1]["res"]
        if not racy:
            s = shrink(prop, driver, s, tmp, len(reported)) if violations == 0 else s
            again = driver.run([s], 1, 200)
            bad2, _ = validate(prop, [{"id": x["id"], "ev": x["ev"]} for x in again], tmp, "again%d" % len(reported))
            if not bad2:
                if res["s"] in ("timeout", "crash") or prop == "C11":
                    continue   # an accident of the machine (a loaded one, say)
                print("note: %s was not confirmed when run alone" % b["id"], file=sys.stderr)
                if sum(len(x["ev"]) for x in again) == 0:
                    continue
            else:
                b = bad2[0]
                res = again[0]["ev"][b["l"] - 1]["res"]
        path = os.path.join(HERE, "out", "%s-%s.json" % (prop, sig))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf8") as f:
            json.dump({"property": prop, "script": s, "race": racy, "call": s["ops"][-1], "expected": b["x"], "observed": res,
                       "stderr": t.get("stderr", "")}, f, ensure_ascii=False, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        violations += 1
        if violations >= 5:
            break

    cov["traces_validated_against_impl"] = len(traces)
    cov["calls_judged"] = counts
    cov["canaries_caught"] = {k: "%d of %d" % tuple(v) for k, v in caught.items()}
    picks = r.sample(traces, min(3, len(traces)))
    cov["samples"] = [{"id": t["id"], "calls": strip(t)[-6:], "outcome": [e["res"]["s"] for e in t["ev"]][-6:]} for t in picks]
    cov["seconds"] = {"models": round(t1 - t0, 1), "code": round(t2 - t1, 1), "validation": round(t3 - t2, 1)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf8") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": ["the harness (harness/) reports what the code returned", "TLC evaluates the specification as it reads"],
                   "wall_s": round(time.time() - t0, 1), "violations": violations}, f, ensure_ascii=False, indent=1)
    print("%s %s seed=%d: %d states, %d traces, calls ok=%d vacuous=%d bad=%d, canaries %s, %.1fs" % (
        prop, tier, seed, cov["states"], len(traces), counts["ok"], counts["vac"], counts["bad"],
        " ".join("%s:%d/%d" % (k, v[0], v[1]) for k, v in caught.items()), time.time() - t0))
    if violations:
        return 1
    if counts["ok"] < 100:
        raise Broken("next to nothing was judged")
    for kind in plan["canaries"]:
        if caught.get(kind, [0])[0] == 0:
            raise Broken("no %s canary was caught" % kind)
    return 0


def shrink(prop, driver, s, tmp, tag):
    """Drops calls which aren't needed for the violation, as far as is quick."""
    t0 = time.time()
    ops = s["ops"]
    n = 0
    size = max(1, len(ops) // 2)
    while size >= 1 and time.time() - t0 < 25:
        cands = []
        for i in range(0, len(ops) - 1, size):
            c = ops[:i] + ops[min(i + size, len(ops) - 1):]
            if len(c) < len(ops):
                cands.append(c)
        if not cands:
            break
        cands = cands[:16]
        ss = [{"id": "c%d" % i, "fresh": s["fresh"], "ops": c} for i, c in enumerate(cands)]
        n += 1
        best = None
        try:
            # calls on objects which are gone are errors of the harness: one by one
            ts = []
            for x in ss:
                try:
                    ts += driver.run([x], 1, 60)
                except Broken:
                    pass
            bad, _ = validate(prop, [{"id": t["id"], "ev": t["ev"]} for t in ts], tmp, "shrink%s-%d" % (tag, n)) if ts else ([], {})
            good = [b for b in bad if b["l"] == len(ss[int(b["id"][1:])]["ops"])]
            if good:
                best = min((ss[int(b["id"][1:])]["ops"] for b in good), key=len)
        except Broken:
            pass
        if best is None:
            size //= 2
        else:
            ops = best
            size = min(size, max(1, len(ops) // 2))
    return {"id": s["id"], "fresh": s["fresh"], "ops": ops}


def replay(prop, path, tmp):
    rec = json.load(open(path, encoding="utf8"))
    driver = Driver(build_driver(tmp, rec["race"]), tmp, rec["race"])
    ts = driver.run([rec["script"]], 1)
    bad, _ = validate(prop, [{"id": t["id"], "ev": t["ev"]} for t in ts], tmp, "replay")
    for e in ts[0]["ev"]:
        print(json.dumps(e, ensure_ascii=False))
    if bad:
        print("expected:", json.dumps(bad[0]["x"], ensure_ascii=False))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the property held")
    return 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(prop, sys.argv[3], tmp)
        return check(prop, tier, seed, tmp)
    except Broken as e:
        print("check broken: %s" % e, file=sys.stderr)
        return 2
    finally:
        if os.environ.get("VERIF_KEEPTMP"):
            print(tmp, file=sys.stderr)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
