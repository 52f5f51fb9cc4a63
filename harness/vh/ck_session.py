"""C10, C11: how a session ends.

 1. TLC explores Session for every playbook case, ending and moment, with
    liveness, and prints each behaviour with the results it may have;
 2. each behaviour is replayed: same script, same ending at the same moment;
    the result has to be one the specification allows for that script;
 3. random sessions with several hosts end at arbitrary times or bytes; TLC
    checks them against SessionTrace.
"""
from __future__ import annotations
import json, os, random, signal, socket, threading, time
from . import zyg, control, tlc, scenario, proxy, catalogue as cat, ck_control as ck
from .dapclient import Gone, Timeout
from .catalogue import T, I, B, R, M, one

LEVEL = "model_checking"
DISC = ["disc", "discT", "term", "termdisc"]
FAULT = ["eof", "killda", "cut", "int", "killpb", "probe"]
S = {"slow": 0.12}

CASES = {
    "plain": (one([T("a"), T("b", args=S), T("c"), T("d", args=S)]), ["a", "c"]),
    "no-stops": (one([T("a", args=S), T("b", args=S)]), []),
    "every-task": (one([T("a"), T("b", args=S), T("c")]), ["a", "b", "c"]),
    "two-hosts": (one([T("a"), T("b", args=S), T("c")], ("h1", "h2")), ["b"]),
    "two-plays": ({"hosts": ["h1"], "plays": [{"items": [T("a", args=S)]}, {"items": [T("b"), T("c", args=S)]}]}, ["b"]),
    "include": (one([T("a"), I("i", 1, [T("b", args=S), T("c")]), T("d")]), ["c", "d"]),
    "role-handler": (one([T("a", notify="H"), R("r", "r1", [T("b")]), T("c", args=S)], handlers=[T("H")]), ["b", "H"]),
    "failing": (one([T("a", args=S), T("b", out="fail"), T("c")], ("h1",)), ["b"]),
    "rescued": (one([B([T("a"), T("b", out="fail")], [T("r", args=S)], [T("z")]), T("c")]), ["r", "z"]),
    "meta": (one([T("a"), M("noop", n="M"), M("clear_facts"), T("d", args=S)]), ["M", "d"]),
    "refresh": (one([T("a"), M("refresh_inventory", n="RI"), T("b", args=S), T("c")]), ["c"]),
    "serial": (one([T("a"), T("b", args=S)], ("h1", "h2"), serial=1), ["a"]),
    "run-once": (one([T("a", run_once=True), T("b", args=S), T("c")], ("h1", "h2", "h3")), ["c"]),
}


def lines_of(prog, names, refs):
    out = {}
    for e in refs["events"]:
        if e["e"] == "start" and e["name"].split(" : ")[-1] in names:
            out.setdefault(e["path"], set()).add(e["line"])
    return [{"file": f, "lines": [{"line": l} for l in sorted(v)]} for f, v in sorted(out.items())]


def wait_file(path, pred, timeout):
    end = time.monotonic() + timeout
    while time.monotonic() < end:
        if pred():
            return True
        time.sleep(0.002)
    return False


class Run:
    """Performs the script of one behaviour."""

    def __init__(self, item, out):
        self.it = item
        self.s = scenario.Session(out, item["prog"], item)
        self.T = item.get("T", 25)
        self.ev = []
        self.seen_term = False
        self.disc_seq = None
        self.answers = {}
        self.stops = 0
        self.proxy = None
        self.gone = False
        self.interrupted = False
        self.t0 = time.monotonic()
        self.lock = threading.Lock()

    def note(self, e, **k):
        self.ev.append([time.monotonic_ns(), {"e": e, **k}])

    def pump(self, timeout):
        """Handle one message; False when none came."""
        c = self.s.c
        try:
            m = c.next(timeout)
        except Timeout:
            return False
        except Gone:
            self.gone = True
            return False
        if m.get("event") == "stopped":
            self.stops += 1
            self.tid = m["body"]["threadId"]
            self.note("stop")
        elif m.get("event") == "terminated":
            self.seen_term = True
            self.note("term")
        elif m.get("type") == "response":
            if m["request_seq"] in self.answers:
                self.answers[m["request_seq"]] = m
                if m["command"] in ("disconnect", "terminate"):
                    if self.answers.get("quiet") == m["request_seq"]:
                        return True
                    self.note("answer", ok=bool(m.get("success")), cmd=m["command"])
        return True

    def until(self, pred, timeout=None):
        end = time.monotonic() + (timeout or self.T)
        while not pred():
            left = end - time.monotonic()
            if left <= 0 or self.gone:
                return pred()
            self.pump(left)
        return True

    def send(self, command, args=None, quiet=False):
        c = self.s.c
        with_seq = c.seq
        self.answers[with_seq] = None
        if quiet:
            self.answers["quiet"] = with_seq
        try:
            c.request(command, args)
        except Gone:
            self.gone = True
        return with_seq

    def go(self):
        s, it = self.s, self.it
        env = {}
        if not it["wait"]:
            env["ANSIBUG_NO_WAIT_FOR_CONFIG_DONE"] = "true"
        s.start_playbook(env)
        hang = None
        script = it["script"]
        attached = False
        try:
            if (it["wait"] or it.get("late") is not None) and not s.wait_listen(40) and it["wait"]:
                raise RuntimeError("never listened: " + s.read("pb.log")[-800:])
            if it.get("late"):
                time.sleep(it["late"])
            stops = 0
            for n, x in enumerate(script):
                do = x["do"]
                nxt = script[n + 1] if n + 1 < len(script) else {}
                burst = nxt.get("point") == "burst"
                if do == "attach":
                    s.start_adapter()
                    addr = f"uds://{s.sock}"
                    if it.get("proxy"):
                        p = os.path.join(s.out, "p")
                        self.proxy = proxy.Proxy(p, s.sock, it.get("cutat"))
                        addr = f"uds://{p}"
                    s.c.call("initialize", {"adapterID": "x"}, self.T)
                    r = s.c.call("attach", {"address": addr}, self.T)
                    if not r.get("success"):
                        if it.get("cutat") or it.get("late") is not None:
                            it["run"] = "over"
                            break
                        raise RuntimeError("attach refused: %r" % r)
                    attached = True
                    end = time.monotonic() + self.T
                    while not any(m.get("event") in ("initialized", "terminated") for m in s.c.inbox):
                        if time.monotonic() > end:
                            raise Timeout()
                        s.c.poll(self.T)
                    for b in it["bps"]:
                        s.c.call("setBreakpoints", {"source": {"path": os.path.join(s.root, b["file"])}, "breakpoints": b["lines"]}, self.T)
                    s.c.call("setExceptionBreakpoints", {"filters": it.get("filters", [])}, self.T)
                elif do == "config":
                    q = self.send("configurationDone", {})
                    if not burst and not self.until(lambda: self.answers[q]):
                        raise Timeout()
                elif do == "resume":
                    stops += 1
                    if not self.until(lambda: self.stops >= stops):
                        raise Timeout()
                    q = self.send(it.get("how", "continue"), {"threadId": self.tid})
                    self.note("resume")
                    if not burst and not self.until(lambda: self.answers[q]):
                        raise Timeout()
                else:
                    if x["point"] == "stop" and not self.until(lambda: self.stops > stops):
                        raise Timeout()
                    if x["point"] == "over" and not self.until(lambda: self.seen_term):
                        raise Timeout()
                    if x["point"] == "running" and not wait_file(s.trace, lambda: self.running(x["k"]), self.T):
                        raise Timeout()
                    if it.get("pause"):
                        time.sleep(it["pause"])
                    self.ending(do)
            if it.get("run") == "free":
                self.free()
            if it.get("run") == "over" and self.disc_seq is None and s.c:
                self.disc_seq = self.send("disconnect", {}, quiet=True)
            # Only the end is left to wait for.
            end = time.monotonic() + self.T
            again = time.monotonic() + 2
            while s.poll_pb() is None and time.monotonic() < end:
                if time.monotonic() > again and self.interrupted:
                    # Python may miss the first one if it comes just before it waits for a lock
                    os.kill(s.pb_pid, signal.SIGINT)
                    self.interrupted = False
                if s.c and not self.gone and not s.c.eof:
                    self.pump(0.01)
                    self.finish_client()
                else:
                    time.sleep(0.003)
            if s.poll_pb() is None:
                hang = "playbook"
            if s.c and hang is None:
                end = time.monotonic() + self.T
                while s.poll_da() is None and time.monotonic() < end:
                    if not self.gone and not s.c.eof:
                        self.pump(0.01)
                        self.finish_client()
                    else:
                        time.sleep(0.003)
                while not self.gone and self.pump(0.05):
                    pass
                if s.poll_da() is None:
                    hang = "adapter"
        except Timeout:
            hang = "script"
        except Gone:
            hang = "adapter closed its output"
        except Exception:
            import traceback
            hang = traceback.format_exc()[-1200:]
        finally:
            stacks = ""
            s.kill()
        ans = min([z[0] for z in self.ev if z[1]["e"] == "answer"], default=1 << 62)
        for r in s.records():
            if r["e"] == "start":
                self.ev.append([r["t"], {"e": "start", "late": r["t"] > ans + 2 * 10 ** 9}])
        self.ev.sort(key=lambda z: z[0])
        ev = [x for _, x in self.ev]
        if hang:
            ev.append({"e": "hang", "who": hang})
        else:
            ev.append({"e": "pbexit", "rc": s.poll_pb()})
            if s.c:
                ev.append({"e": "daexit", "rc": s.poll_da()})
        unanswered = [q for q, a in self.answers.items() if q != "quiet" and a is None]
        wire = [[d, str(m.get("command") or m.get("event")), m.get("success")] for _, d, m in (s.c.log if s.c else [])][-12:]
        return {"events": ev, "hang": hang, "wire": wire, "rc": s.poll_pb(), "da": s.poll_da(), "k": sum(1 for x in ev if x["e"] == "start"),
                "stops": self.stops, "attached": attached, "bytes": self.proxy.n if self.proxy else None, "took": round(time.monotonic() - self.t0, 2),
                "log": s.read("pb.log")[-4500:] + s.read("da.log")[-4500:]}

    def running(self, k):
        st = [r for r in self.s.records() if r["e"] in ("start", "exec")]
        n = 0
        for i, r in enumerate(st):
            if r["e"] == "start":
                n += 1
            elif n == k:
                return True
        return False

    def ending(self, e):
        s = self.s
        if e == "disc":
            self.note("sent", kind="disc", disc=True)
            self.disc_seq = self.send("disconnect", {} if self.it.get("bare") else {"terminateDebuggee": False})
        elif e == "discT":
            self.note("sent", kind="term", disc=True)
            self.disc_seq = self.send("disconnect", {"terminateDebuggee": True})
        elif e == "term":
            self.note("sent", kind="term", disc=False)
            self.send("terminate", {})
        elif e == "termdisc":
            self.note("sent", kind="term", disc=True)
            self.send("terminate", {})
            self.disc_seq = self.send("disconnect", {})
        elif e == "eof":
            self.note("fault", kind=e)
            os.close(s.c.w)
            self.disc_seq = -1
        elif e == "killda":
            self.note("fault", kind=e)
            os.kill(s.da_pid, signal.SIGKILL)
            self.disc_seq = -1
        elif e == "cut":
            self.note("fault", kind=e)
            self.proxy.brk()
        elif e == "int":
            self.note("fault", kind=e)
            self.interrupted = True
            os.kill(s.pb_pid, signal.SIGINT)
        elif e == "killpb":
            self.note("fault", kind=e)
            os.kill(s.pb_pid, signal.SIGKILL)
        elif e == "probe":
            c = socket.socket(socket.AF_UNIX)
            c.connect(s.sock)
            c.close()

    def finish_client(self):
        if self.seen_term and self.disc_seq is None:
            self.disc_seq = self.send("disconnect", {}, quiet=True)

    def free(self):
        """Resume every stop until the ending is due."""
        it = self.it
        end = time.monotonic() + it["after"]
        done = False
        limit = time.monotonic() + self.T
        stops = 0
        while not self.seen_term and not self.gone and self.s.poll_pb() is None and time.monotonic() < limit:
            if self.stops > stops and not (done and it["ending"] in DISC):
                stops = self.stops
                self.note("resume")
                self.send(it["how"], {"threadId": self.tid})
            if not done and time.monotonic() >= end and (not it.get("atstop") or self.stops >= it["atstop"]):
                done = True
                self.ending(it["ending"])
                if it["ending"] in ("killda", "eof"):
                    return
            self.pump(0.002 if done or it["after"] < 0.01 else min(0.01, max(0.0005, end - time.monotonic())))


def script_run(item, out):
    return Run(item, out).go()


def describe(script):
    return " ".join("%s%s" % (x["do"], ("@%s:%d" % (x["point"], x["k"])) if x.get("point") else "") for x in script)


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/{prop}")
    th = tier == "thorough"
    P = {n: v[0] for n, v in CASES.items()}
    refs = ck.references(P, rep)
    endings = DISC if prop == "C10" else FAULT
    cs, names, bps = [], [], []
    for n, (prog, stops) in CASES.items():
        st = [e for e in refs[n]["events"] if e["e"] == "start"]
        b = lines_of(prog, stops, refs[n])
        cov = {(x["file"], l["line"]) for x in b for l in x["lines"]}
        slow = [i + 1 for i, e in enumerate(st) if e["name"].split(" : ")[-1] in slow_names(prog)]
        for wait in ([True, False] if prop == "C11" else [True]):
            cs.append({"n": len(st), "stops": [i + 1 for i, e in enumerate(st) if (e["path"], e["line"]) in cov], "slow": slow, "wait": wait})
            names.append(n)
            bps.append(b)
    res = tlc.must(tlc.run("Session", env={"MC_CASES": tlc.dump(cs, "session.json")}, workers=4, timeout=600, mem="6g",
                           constants={"Endings": "{" + ", ".join('"%s"' % e for e in endings) + "}"}), "Session")
    rep.tlc(res)
    allowed = {}
    for b in tlc.prints(res, "BEH"):
        allowed.setdefault((b["case"], json.dumps(b["script"], sort_keys=True)), set()).add((b["k"], b["code"]))
    rep.count("model_behaviours", len(allowed))
    keys = sorted(allowed)
    rnd.shuffle(keys)
    # every kind of ending at every kind of point first
    seen, first, later = {}, [], []
    for k in keys:
        e = json.loads(k[1])[-1] if json.loads(k[1]) else {"do": "none"}
        kind = (e["do"], e.get("point"))
        seen[kind] = seen.get(kind, 0) + 1
        (first if seen[kind] <= (1000 if th else 6) else later).append(k)
    keys = first + later[:0 if not th else None]
    items = []
    for c, sc in keys:
        items.append({"prog": P[names[c - 1]], "name": names[c - 1], "bps": bps[c - 1], "script": json.loads(sc), "wait": cs[c - 1]["wait"], "case": c,
                      "proxy": "cut" in sc, "how": rnd.choice(["continue"]), "bare": rnd.random() < 0.5, "key": sc})
    if th:
        items = items * 3
    rnd.shuffle(items)
    # points of the same script reached after different delays
    for it in items:
        it["pause"] = rnd.choice([0, 0, 0.01, 0.04])
        if it["script"] and it["script"][-1].get("point") in ("burst", "running"):
            it["pause"] = 0
    results = zyg.run_many(items, script_run, timeout=150, budget=420 if th else 120)
    traces = []
    for k, (it, r) in enumerate(zip(items, results)):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        if "harness_error" in r:
            rep.broken(r, it["name"], {"kind": "session", "item": it})
            continue
        rep.count("behaviours_replayed")
        ref = refs[it["name"]]
        d = describe(it["script"])
        rp = {"kind": "session", "item": it, "result": r}
        if r["hang"]:
            rep.viol(f"hang:{it['name']}:{d}", f"{r['hang']} log={r['log'][-600:]}", rp)
            continue
        code = "killed" if it["script"] and it["script"][-1]["do"] in ("int", "killpb") else "normal" if r["rc"] == ref["rc"] else "fail"
        ok = allowed[(it["case"], it["key"])]
        if code == "killed":
            good = True
        elif r["rc"] == ref["rc"] and ref["rc"] != 0:
            good = any(a[0] == r["k"] for a in ok)
        else:
            good = (r["k"], code) in ok
        if not good:
            rep.viol(f"outcome:{it['name']}:{d}", f"{r['k']} of {cs[it['case'] - 1]['n']} tasks started, exit code {r['rc']}; allowed: {sorted(ok)} log={r['log'][-500:]}", rp)
        traces.append({"id": str(k), "n": cs[it["case"] - 1]["n"], "rc": ref["rc"], "attached": r["attached"], "events": r["events"]})
    rep.sample({"case": items[0]["name"], "script": items[0]["script"], "allowed": sorted(allowed[(items[0]["case"], items[0]["key"])])})
    judge(rep, traces, items)
    randoms(rep, prop, rnd, th, seed)
    if prop == "C11":
        connect_faults(rep, rnd, th)
        errors(rep, rnd, th)
    rep.assumptions += ["an ending that has not come within 25 s counts as a hang", "a broken connection is a closed socket, not a silent one"]


def slow_names(prog):
    out = set()

    def walk(items):
        for i in items or []:
            if (i.get("args") or {}).get("slow"):
                out.add(i["n"])
            for k in ("b", "r", "a", "items", "handlers"):
                walk(i.get(k))
    for p in prog["plays"]:
        for k in ("items", "pre", "post", "handlers"):
            walk(p.get(k))
    return out


def judge(rep, traces, items):
    if not traces:
        return
    res = tlc.must(tlc.run("SessionTrace", env={"TRACES": tlc.dump(traces, "straces.json")}, workers=4, timeout=600), "SessionTrace")
    rep.tlc(res)
    out = tlc.prints(res, "RES")
    if len(out) != len(traces):
        raise RuntimeError("SessionTrace did not finish every trace")
    rep.traces += len(out)
    by = {t["id"]: t for t in traces}
    for o in out:
        it = items[int(o["id"])]
        for v in o["viol"][:1]:
            rep.viol(f"{v['rule']}:{it['name']}:{describe(it['script'])}", f"{v['info']} (event {v['pos']}) of {json.dumps(by[o['id']]['events'])[:400]}",
                     {"kind": "session", "item": it, "viol": o["viol"], "events": by[o["id"]]["events"]})


def randoms(rep, prop, rnd, th, seed):
    names = [n for n in cat.FIXED]
    P = ck.programs(rnd.sample(names, len(names) if th else 14), 20 if th else 6, f"s{seed}")
    refs = ck.references(P, rep)
    items = []
    endings = DISC if prop == "C10" else ["eof", "killda", "cut", "cut"]
    for k in range(900 if th else 110):
        n = rnd.choice(list(P))
        sets, mk = ck.bpsets(rnd, P[n], 3, everywhere=True)
        b = [{"file": x["file"], "lines": [{"line": l["line"]} for l in x["lines"]]} for x in rnd.choice(sets)]
        e = rnd.choice(endings)
        it = {"prog": P[n], "name": n, "bps": b, "filters": rnd.choice([[], ck.FILTERS]), "wait": True, "run": "free", "how": rnd.choice(["continue", "next", "stepIn", "stepOut"]),
              "script": [{"do": "attach"}, {"do": "config"}], "ending": e, "after": rnd.choice([0, 0, 0.001, 0.003, 0.01, 0.02, 0.05, 0.1]), "atstop": rnd.choice([0, 0, 0, 1, 2, 3, 5]),
              "det": rnd.random() < 0.5, "inline": True}
        if rnd.random() < 0.25:
            it["wait"], it["late"] = False, rnd.choice([0, 0.005, 0.02, 0.05])
        if e == "cut":
            it["proxy"] = True
            if rnd.random() < 0.7:
                it["cutat"] = [rnd.choice(["up", "down"]), rnd.choice([rnd.randint(1, 400), rnd.randint(1, 1500), rnd.randint(1, 4000)])]
                it["after"] = 1000
        items.append(scenario.vary(rnd, it, 0.3))
    results = zyg.run_many(items, script_run, timeout=150, budget=250 if th else 90)
    traces = []
    for k, (it, r) in enumerate(zip(items, results)):
        if r.get("skipped"):
            continue
        if "harness_error" in r:
            rep.broken(r, it["name"], {"kind": "session", "item": it})
            continue
        if it.get("cutat") and r["hang"] and not r["hang"] in ("playbook", "adapter"):
            # cut while it was being set up: only the ends count
            pass
        rep.count("random_endings")
        traces.append({"id": str(k), "n": sum(1 for e in refs[it["name"]]["events"] if e["e"] == "start"), "rc": refs[it["name"]]["rc"],
                       "attached": r["attached"], "events": r["events"]})
    judge(rep, traces, items)


# ------------------------------------------------- connect mode and errors

def connect_run(item, out):
    """A playbook that connects to something that is not a proper adapter."""
    s = scenario.Session(out, item["prog"], item)
    kind = item["fault"]
    l = socket.socket(socket.AF_INET if item["tcp"] else socket.AF_UNIX)
    p = os.path.join(out, "l")
    if item["tcp"]:
        l.bind(("127.0.0.1", 0))
        addr = "tcp://127.0.0.1:%d" % l.getsockname()[1]
    else:
        l.bind(p)
        addr = f"uds://{p}"
    if kind == "refuse":
        l.close()
    elif kind == "absent":
        l.close()
        if not item["tcp"]:
            os.unlink(p)
    else:
        l.listen(5)

    def serve():
        try:
            c, _ = l.accept()
            if kind == "hold":
                time.sleep(0.15)
            elif kind == "data":
                c.sendall(bytes(item["bytes"]))
                time.sleep(0.02)
            elif kind == "reset" and item["tcp"]:
                import struct
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            c.close()
            l.close()
        except OSError:
            pass
    if kind not in ("refuse", "absent"):
        threading.Thread(target=serve, daemon=True).start()
    s.start_playbook({"ANSIBUG_MODE": "connect", "ANSIBUG_DEBUG_ADDR": addr, "ANSIBUG_NO_WAIT_FOR_CONFIG_DONE": "true" if item["nowait"] else "false"})
    rc = s.wait_exit("pb", 25)
    s.kill()
    return {"rc": rc, "k": sum(1 for r in s.records() if r["e"] == "start"), "log": s.read("pb.log")[-4500:]}


def connect_faults(rep, rnd, th):
    prog = CASES["two-plays"][0]
    ref = ck.references({"p": prog}, rep)["p"]
    n = sum(1 for e in ref["events"] if e["e"] == "start")
    datas = [b"\0", b"\0\0\0\0\0\0\0\0", b"\xff" * 8, b"\0\0\0\0\0\0\0\5{", b"HTTP/1.1 400\r\n\r\n", b"\0\0\0\0\0\0\0\2{}", b"\2\0\0\0\0\0\0\0{}", b"\0\0\0\2{}", b"{}" * 100]
    items = []
    for tcp in (False, True):
        for f in ("absent", "refuse", "close", "hold", "reset"):
            for nw in (False, True):
                items.append({"prog": prog, "fault": f, "tcp": tcp, "nowait": nw})
        for d in datas + ([bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 40))) for _ in range(40)] if th else []):
            items.append({"prog": prog, "fault": "data", "bytes": list(d), "tcp": tcp, "nowait": False})
    for it, r in zip(items, zyg.run_many(items, connect_run, timeout=60)):
        if "harness_error" in r:
            rep.broken(r, "connect:" + it["fault"], {"kind": "connect", "item": it})
            continue
        rep.count("connection_faults")
        w = f"{it['fault']}:{'tcp' if it['tcp'] else 'uds'}:{bytes(it.get('bytes', b'')).hex()[:20]}"
        if r["rc"] is None:
            rep.viol(f"hang:connect:{w}", "the playbook did not end " + r["log"][-300:], {"kind": "connect", "item": it})
        elif r["rc"] != ref["rc"] or r["k"] != n:
            rep.viol(f"run-incomplete:connect:{w}", f"{r['k']} of {n} tasks, exit code {r['rc']} " + r["log"][-500:], {"kind": "connect", "item": it})


ERRORS = {
    "unknown-handler": one([T("a"), T("b", notify="NO SUCH"), T("c")]),
    "callback-interrupt": one([T("a"), T("b", x=["loop: \"{{ 1 }}\""]), T("c")]),
    "second-play": {"hosts": ["h1"], "plays": [{"items": [T("a")]}, {"items": [T("b", notify="NO SUCH")]}]},
    "in-include": one([T("a"), I("i", 1, [T("b"), T("c", notify="NO SUCH")]), T("d")]),
    "bad-include": one([T("a"), I("i", 1, [T("b", x=["not_a_keyword: 1"])]), T("d")]),
    "strategy-raises": one([T("a"), M("no_such_meta"), T("d")]),
}


def errors(rep, rnd, th):
    items, names = [], []
    for n, prog in ERRORS.items():
        for where in ("none", "a", "all"):
            for e in ("", "disc", "eof"):
                items.append({"prog": prog, "name": "error-" + n, "wait": True, "run": "free", "how": "continue", "after": 1000, "ending": "none", "script": [{"do": "attach"}, {"do": "config"}],
                              "bps": [] if where == "none" else [{"file": "pb.yml", "lines": [{"line": l} for l in range(4, 20 if where == "all" else 5)]}],
                              "filters": [] if where != "all" else ck.FILTERS})
                if e:
                    items[-1].update(ending=e, after=0)
                names.append(n)
    refs = {n: r for n, r in zip(ERRORS, zyg.run_many([{"prog": p} for p in ERRORS.values()], control.reference))}
    results = zyg.run_many(items, script_run, timeout=120)
    for it, n, r in zip(items, names, results):
        if "harness_error" in r:
            rep.broken(r, it["name"], {"kind": "session", "item": it})
            continue
        rep.count("erroring_playbooks")
        rp = {"kind": "session", "item": it, "result": r}
        if r["hang"]:
            rep.viol(f"hang:{it['name']}:{it['ending']}", f"{r['hang']} {r['log'][-400:]}", rp)
        elif r["rc"] != refs[n]["rc"]:
            rep.viol(f"wrong-exit-code:{it['name']}", f"{r['rc']} instead of {refs[n]['rc']} {r['log'][-400:]}", rp)


def replay(obj):
    f = connect_run if obj["kind"] == "connect" else script_run
    return zyg.run_many([obj["item"]], f, timeout=120)[0]
