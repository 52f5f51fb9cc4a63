"""C18: path mappings.

 1. TLC checks the mapping itself over all small lists of mappings and paths
    (PathMapMC) and produces what sessions with mappings must look like
    (PathSession);
 2. these sessions run against real playbooks, attached to or launched, and
    everything that names a source or acts on one is compared.
"""
from __future__ import annotations
import os, random, signal, subprocess, sys
from . import zyg, tlc, scenario
from .dapclient import Timeout

PRELOAD = True
# TLC's output is ASCII: "UML" is written as a letter outside of it
NAMES = [("a", "ab", "b"), ("t", "t.x", "tt"), ("UML", "UML1", "z"), ("a:1", "a:12", "a"), ("x", "x-y", "y"), ("p", "p%20", "P"), ("roles", "role", "roles2")]
LINES = (5, 8)


def text(p):
    return "/" + "/".join(p).replace("UML", "\u00fc")


def writes(rnd, p):
    """One way to write a directory in a mapping."""
    return text(p) + ("/" if p and rnd.random() < 0.4 else "")


class Case:
    """Symbolic: the first name of an Ansible path may be the scratch directory, "%R"."""

    def __init__(self, rnd, n):
        self.rnd = rnd
        self.n = names = rnd.choice(NAMES)
        dirs = [("%R",)] + [("%R", x) for x in names] + [("%R", x, y) for x in names for y in names[:2]]
        rnd.shuffle(dirs)
        nf = rnd.choice([2, 3, 4])
        self.pb = (*rnd.choice(dirs), "pb.yml")
        self.files = []
        while len(self.files) < nf:
            f = (*rnd.choice(dirs[:5]), rnd.choice(["t.yml", "t.ymlx", "u.yml"]))
            if f not in self.files:
                self.files.append(f)
        # the second task of a file may include the next one
        self.nest = {}
        top = []
        k = 0
        while k < nf:
            top.append(self.files[k])
            while k + 1 < nf and rnd.random() < 0.35 and len(top) + (nf - k - 1) > 2:
                self.nest[self.files[k]] = self.files[k + 1]
                k += 1
            k += 1
        self.top = top
        self.steps = []
        for i, f in enumerate(top):
            self.steps.append({"path": self.pb, "line": 5 + 3 * i, "parents": []})
            self.walk(f, [self.pb])
        alldirs = sorted({f[:k] for f in self.files + [self.pb] for k in range(1, len(f))})
        client = [("C",), ("C", names[0]), ("C", names[1]), ("C", names[0], names[1]), ("D", "my work")]
        self.maps = []
        for _ in range(rnd.choice([0, 1, 1, 2, 2, 2, 3])):
            x = rnd.random()
            rem = rnd.choice(alldirs) if x < 0.75 else rnd.choice(self.files + [self.pb]) if x < 0.85 else () if x < 0.9 else rnd.choice([d + (names[0],) for d in alldirs])
            x = rnd.random()
            loc = rnd.choice(client) if x < 0.7 else rnd.choice(alldirs) if x < 0.85 else () if x < 0.92 else rnd.choice(client) + (rnd.choice(self.files)[-1],)
            self.maps.append({"local": loc, "remote": rem, "wl": writes(rnd, loc), "wr": writes(rnd, rem)})
        cands = []
        for f in self.files + [self.pb, self.pb]:
            cands.append(f)
            for m in self.maps:
                if f[:len(m["remote"])] == m["remote"]:
                    c = m["local"] + f[len(m["remote"]):]
                    cands += [c, c, c]
                    if m["local"]:
                        l = m["local"]
                        cands.append(l[:-1] + (l[-1] + "b",) + f[len(m["remote"]):])
                        cands.append(l[:-1] + (rnd.choice(names),) + f[len(m["remote"]):])
        cands = [c for c in cands if c]
        self.reqs = []
        for _ in range(rnd.choice([3, 4, 5])):
            x = rnd.random()
            known = [r["path"] for r in self.reqs]
            # the same client path again, or another one for the same file
            other = [c for c in cands for k in known if c != k and c[-1] == k[-1] and self.ansible(c) == self.ansible(k)]
            p = rnd.choice(known) if known and x < 0.25 else rnd.choice(other) if other and x < 0.6 else rnd.choice(cands)
            self.reqs.append({"path": p, "lines": rnd.choice([[5], [8], [5, 8], [8, 5], []] if self.reqs else [[5], [5, 8]])})

    def ansible(self, p):
        """Only to choose requests with: the required answer is the specification's."""
        for m in self.maps:
            if p[:len(m["local"])] == m["local"]:
                return m["remote"] + p[len(m["local"]):]
        return p

    def walk(self, f, parents):
        self.steps.append({"path": f, "line": 5, "parents": parents})
        self.steps.append({"path": f, "line": 8, "parents": parents})
        if f in self.nest:
            self.walk(self.nest[f], [f, *parents])

    def spec(self):
        return {"maps": [{"local": m["local"], "remote": m["remote"]} for m in self.maps], "steps": self.steps, "static": [self.pb], "reqs": self.reqs}

    def item(self):
        return {"maps": [[m["wl"], m["wr"]] for m in self.maps], "pb": self.pb, "top": self.top, "files": self.files, "nest": [[a, b] for a, b in self.nest.items()]}


class PathSession(scenario.Session):
    def __init__(self, out, item):
        self.out, self.opts = out, dict(item)
        self.root = os.path.join(out, "tree")
        os.makedirs(self.root)
        self.trace = os.path.join(out, "trace.jsonl")
        self.sock = os.path.join(out, "s")
        self.pb_pid = self.da_pid = None
        self.pb_status = self.da_status = None
        self.c = None
        self.null = os.open(os.devnull, os.O_RDONLY)
        nest = {tuple(a): b for a, b in item["nest"]}
        head = ["# a", "# b", "# c", "# d"]

        def inc(f, n, pad):
            return [f"{pad}- name: inc {n}", f"{pad}  include_tasks: {self.real(f)}", f"{pad}  ignore_errors: false"]
        L = ["- name: play", "  hosts: h1", "  gather_facts: false", "  tasks:"]
        for i, f in enumerate(item["top"]):
            L += inc(f, i, "  ")
        L += ["  - name: last", "    debug:", "      msg: x"]
        self.put(item["pb"], L)
        for f in map(tuple, item["files"]):
            t = ["- name: one", "  debug:", "    msg: x"]
            t += inc(nest[f], "n", "") if f in nest else ["- name: two", "  debug:", "    msg: y"]
            self.put(f, head + t)
        with open(os.path.join(self.root, "inv.ini"), "w") as f:
            f.write("h1 ansible_connection=local\n")

    def real(self, p):
        return text(p).replace("/%R", self.root)

    def client(self, s):
        return s.replace("/%R", self.root)

    def put(self, p, lines):
        path = self.real(p)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")

    def start_playbook(self, env=None, extra=()):
        from . import delay, runner
        log = os.open(os.path.join(self.out, "pb.log"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        e = {"ANSIBUG_MODE": "listen", "ANSIBUG_DEBUG_ADDR": f"uds://{self.sock}", "ANSIBUG_NO_WAIT_FOR_CONFIG_DONE": "false",
             "ANSIBUG_USE_TLS": "False", "TMPDIR": self.out}
        slow = self.opts.get("delay")

        def go():
            if slow is not None:
                delay.install(f"{slow}/pb")
            return runner.run_playbook(["-i", os.path.join(self.root, "inv.ini"), self.real(self.opts["pb"])], self.trace)
        self.pb_pid = zyg.fork_child(go, stdin=self.null, stdout=log, stderr=log, env=e, cwd=self.root)
        os.close(log)


def session(item, out):
    s = PathSession(out, item)
    T = 25
    st = {"hang": False, "crash": ""}
    obs = []
    view = {}       # id -> [source, verified]
    cur = {}        # client path -> ids
    proc = None
    maps = [{"localRoot": s.client(a), "remoteRoot": s.client(b)} for a, b in item["maps"]]
    extra = {"pathMappings": maps} if maps or not item.get("bare") else {}

    def see(m):
        if m.get("event") == "breakpoint":
            b = m["body"]["breakpoint"]
            view[b["id"]] = [(b.get("source") or {}).get("path"), bool(b["verified"])]

    def drain():
        while c.pos < len(c.inbox):
            see(c.inbox[c.pos])
            c.pos += 1

    def setbp(h):
        src = {"path": s.client(text(h["path"])), "name": "some name"}
        r = c.call("setBreakpoints", {"source": src, "breakpoints": [{"line": l} for l in h["lines"]]}, T)
        drain()
        L = (r.get("body") or {}).get("breakpoints", [])
        cur[src["path"]] = [b["id"] for b in L]
        same = True
        for b in L:
            got = b.get("source") or {}
            view[b["id"]] = [got.get("path"), bool(b["verified"])]
            same = same and got.get("name") == src["name"] and got.get("path") == src["path"]
        obs.append({"op": "set", "path": src["path"], "same": same, "ver": [bool(b["verified"]) for b in L], "lines": [b.get("line") for b in L]})

    script = list(item["hist"])
    try:
        if not item.get("launch"):
            s.start_playbook()
        s.start_adapter()
        c = s.c
        if not item.get("launch") and not s.wait_listen(40):
            raise Timeout()
        c.call("initialize", {"adapterID": "a"}, T)
        if item.get("launch"):
            q = c.request("launch", {"playbook": s.real(item["pb"]), "args": ["-i", os.path.join(s.root, "inv.ini")], "cwd": s.root, "connectTimeout": 40.0, **extra})
            while True:
                m = c.next(T)
                if m.get("command") == "runInTerminal":
                    break
            a = m["arguments"]
            log = open(os.path.join(out, "pb.log"), "w")
            env = {**os.environ, "TMPDIR": s.out, **{k: v for k, v in (a.get("env") or {}).items() if v is not None}}
            for k in [k for k in env if k.startswith(("ANSIBLE_CALLBACKS", "ANSIBLE_STRATEGY", "ANSIBLE_COLLECTIONS"))]:
                del env[k]
            env["PYTHONPATH"] = os.path.join(zyg.REPO, "src")
            proc = subprocess.Popen(a["args"], cwd=a["cwd"], env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log)
            c.respond(m, {"processId": proc.pid})
            r = c.wait_response(q, 45)
        else:
            r = c.call("attach", {"address": f"uds://{s.sock}", **extra}, T)
        if not r.get("success"):
            raise RuntimeError(f"attach failed: {r}")
        while not any(m.get("event") == "initialized" for m in c.inbox):
            c.poll(T)
        drain()
        while script and script[0]["op"] == "set":
            setbp(script.pop(0))
        c.call("setExceptionBreakpoints", {"filters": []}, T)
        c.call("configurationDone", {}, T)
        while True:
            m = c.next(T)
            see(m)
            if m.get("event") == "terminated":
                break
            if m.get("event") != "stopped":
                continue
            tid = m["body"]["threadId"]
            F = c.call("stackTrace", {"threadId": tid}, T)["body"]["stackFrames"]
            drain()
            obs.append({"op": "stop", "line": F[0]["line"], "sources": [(f.get("source") or {}).get("path") for f in F],
                        "told": {p: [view[i] for i in ids] for p, ids in cur.items()}})
            if script and script[0]["op"] == "stop":
                script.pop(0)
            while script and script[0]["op"] == "set":
                setbp(script.pop(0))
            c.call("continue", {"threadId": tid}, T)
        c.request("disconnect", {})
        if s.wait_exit("da", T) is None:
            st["hang"] = True
        if proc is not None:
            proc.wait(T)
        elif s.wait_exit("pb", T) is None:
            st["hang"] = True
    except (Timeout, subprocess.TimeoutExpired):
        st["hang"] = True
    except Exception:
        import traceback
        st["crash"] = traceback.format_exc()[-1500:]
    finally:
        s.kill()
        if proc is not None and proc.poll() is None:
            proc.kill()
    log = s.read("pb.log")
    if "Unexpected Exception" in log or "Exception in thread" in log or "ERROR!" in log:
        st["crash"] += log[-1500:]
    return {"obs": obs, "state": st, "root": s.root}


def compare(item, r):
    if r["state"]["hang"] or r["state"]["crash"]:
        return "session-broke", str(r["state"])

    def real(p):
        return text(p).replace("/%R", r["root"])
    O = list(r["obs"])
    how = f"mappings {item['maps']}"
    for h in item["hist"]:
        if not O:
            return "missing", f"{how}: {h} did not come"
        o = O.pop(0)
        if o["op"] != h["op"]:
            return ("missing-stop" if h["op"] == "stop" else "wrong-stop"), f"{how}: required {h}, got {o}"
        if h["op"] == "set":
            if not o["same"]:
                return "source-renamed", f"{how}: {o}"
            if o["ver"] != h["ver"]:
                return "wrong-file", f"{how}: required {h}, got {o}"
        else:
            if o["line"] != h["line"] or o["sources"] != [real(p) for p in h["sources"]]:
                return "wrong-source", f"{how}: required line {h['line']} in {[real(p) for p in h['sources']]}, got {o['line']} in {o['sources']}"
            want = {real(t["path"]): [[real(t["path"]), v] for v in t["ver"]] for t in h["told"]}
            got = {k: v for k, v in o["told"].items() if k in want or v}
            if got != want:
                return "wrong-breakpoint", f"{how}: required {want}, got {got}"
    if O:
        return "wrong-stop", f"{how}: {O[0]} after the end"
    return None


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/C18")
    th = tier == "thorough"
    rep.tlc(tlc.must(tlc.run("PathMapMC", workers=6, timeout=600, mem="6g", constants={"MaxPath": 4} if th else None), "PathMapMC"))
    cases = [Case(rnd, k) for k in range(1500 if th else 150)]
    res = tlc.must(tlc.run("PathSession", env={"PATH_CASES": tlc.dump([c.spec() for c in cases], "pathcases.json")}, workers=6, timeout=600, mem="6g"), "PathSession")
    rep.tlc(res)
    beh = tlc.prints(res, "BEH")
    rep.count("model_behaviours", len(beh))
    by = {}
    for b in beh:
        by.setdefault(b["case"], []).append(b)
    chosen = []
    for k, v in by.items():
        v.sort(key=lambda b: str(b["hist"]))
        rnd.shuffle(v)
        # behaviours where something happens first
        v.sort(key=lambda b: -min(3, sum(h["op"] == "stop" for h in b["hist"])))
        chosen += v[:5 if th else 2]
    rnd.shuffle(chosen)
    chosen = chosen[:4000 if th else 260]
    items = []
    nl = 0
    for b in chosen:
        it = {**cases[b["case"] - 1].item(), "hist": b["hist"]}
        if rnd.random() < 0.2:
            it["delay"] = rnd.random()
        if nl < (60 if th else 16) and rnd.random() < (0.05, 0.15, 0.35, 0.5)[len(it["maps"])]:
            it["launch"] = True
            nl += 1
        it["bare"] = rnd.random() < 0.5
        items.append(it)
    items.sort(key=lambda i: not i.get("launch"))
    results = zyg.run_many(items, session, timeout=120, budget=500 if th else 90)
    for it, r in zip(items, results):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        if "harness_error" in r:
            rep.broken(r, f"maps{len(it['maps'])}", {"item": it})
            continue
        rep.traces += 1
        rep.count("launched" if it.get("launch") else "attached")
        rep.count("stops", sum(o["op"] == "stop" for o in r["obs"]))
        d = compare(it, r)
        if d:
            rep.viol(f"{d[0]}:{'launch' if it.get('launch') else 'attach'}", d[1], {"item": it})
    rep.sample({"maps": items[0]["maps"], "hist": items[0]["hist"][:3]})
    rep.assumptions += ["paths are absolute, written with '/' and without '.', '..' or doubled separators; path names in include directives without blanks and quotes (Ansible splits these itself)"]


def replay(obj):
    r = zyg.run_many([obj["item"]], session, timeout=120)[0]
    return {"result": r, "verdict": None if "harness_error" in r else compare(obj["item"], r)}
