"""The debug adapter between client and debuggee (C12, C13).

1. Adapter.tla is explored by TLC; its behaviours (one act of client or debuggee
   at a time) are replayed into the real adapter process: with a scripted
   debuggee for attach, with the real launch script and playbook for launch.
2. Bursts: client and scripted debuggee send without waiting for each other,
   under perturbed schedules; what came is judged by AdapterTrace.tla.
3. (C12) Requests.tla: every request, valid or not, in every phase of a play,
   against the real playbook.
"""
from __future__ import annotations
import json, os, random, signal, socket, subprocess, threading, time
from . import zyg, tlc, scenario, proxy, delay
from .dapclient import Client, Gone, Timeout

T0 = 12.0
LEVEL = "model_checking"

ASKS = [("threads", {}), ("evaluate", {"expression": "x y \u00fc", "context": "watch"}), ("stackTrace", {"threadId": 7}), ("variables", {"variablesReference": 3}),
        ("continue", {"threadId": 2}), ("scopes", {"frameId": 9}), ("next", {"threadId": 4}), ("stepIn", {"threadId": 4}), ("stepOut", {"threadId": 4}),
        ("setExceptionBreakpoints", {"filters": ["on_error"]}), ("configurationDone", {}), ("terminate", {}),
        ("setVariable", {"variablesReference": 1, "name": "n", "value": "v"}),
        ("setBreakpoints", {"source": {"path": "/x/y.yml"}, "breakpoints": [{"line": 3}], "lines": [3]})]
# what a playbook that waits for its configuration cannot do
ASKS_EARLY = [a for a in ASKS if a[0] in ("threads", "stackTrace", "scopes", "variables", "evaluate", "continue", "next", "stepIn", "stepOut", "setVariable")]
UNSUPPORTED = ["pause", "source", "gotoTargets", "completions", "loadedSources", "x-unknown", "restart", "setFunctionBreakpoints"]
BODY = {"threads": "threads", "variables": "variables", "scopes": "scopes"}


def answer(msg, ok, text):
    """The debuggee's answer to a request, in the adapter's own types."""
    from ansibug import dap
    c = msg.command.value
    if not ok:
        return dap.ErrorResponse(command=msg.command, request_seq=msg.seq, message=text)
    if c == "evaluate":
        return dap.EvaluateResponse(request_seq=msg.seq, result=text)
    if c == "initialize":
        return dap.InitializeResponse(request_seq=msg.seq, capabilities=dap.Capabilities())
    if c == "setVariable":
        return dap.SetVariableResponse(request_seq=msg.seq, value=text)
    if c == "threads":
        return dap.ThreadsResponse(request_seq=msg.seq, threads=[dap.Thread(id=msg.seq, name=text)])
    return getattr(dap, c[0].upper() + c[1:] + "Response")(request_seq=msg.seq)


def shown(m):
    """The text a response carries, if its kind carries any."""
    b = m.get("body") or {}
    if not m.get("success"):
        return m.get("message")
    return {"evaluate": lambda: b.get("result"), "setVariable": lambda: b.get("value"),
            "threads": lambda: (b.get("threads") or [{}])[0].get("name")}.get(m.get("command"), lambda: None)()


class Peer:
    """A debuggee under our control."""

    def __init__(self, path, on=None, wait=0.0):
        from ansibug._mp_queue import ServerMPQueue, MPProtocol
        me = self

        class P(MPProtocol):
            def on_msg_received(self, msg):
                with me.cond:
                    me.got.append((time.monotonic_ns(), msg))
                    me.cond.notify_all()
                if on:
                    on(me, msg)

            def connection_closed(self, exp):
                with me.cond:
                    me.closed = True
                    me.cond.notify_all()
        self.cond, self.sending = threading.Condition(), threading.Lock()
        self.got, self.closed, self.connected, self.t_accept = [], False, False, None
        self.q = ServerMPQueue("uds://" + path, proto=P)
        self.wait = wait
        self.th = threading.Thread(target=self._start, daemon=True)
        self.th.start()

    def _start(self):
        try:
            if self.wait:
                time.sleep(self.wait)
            self.t_accept = time.monotonic_ns()
            self.q.start(timeout=30)
            with self.cond:
                self.connected = True
                self.cond.notify_all()
        except Exception:
            pass

    def until(self, f, timeout=T0):
        with self.cond:
            return self.cond.wait_for(f, timeout)

    def requests(self):
        return [m for _, m in list(self.got) if type(m).__name__.endswith("Request")]

    def send(self, msg):
        # one at a time, as the debuggee does
        with self.sending:
            try:
                self.q.send(msg)
                return True
            except Exception:
                return False

    def close(self):
        try:
            self.q.stop()
        except Exception:
            pass


class Adapter:
    """The real adapter process and its client."""

    def __init__(self, out, item):
        self.out, self.item = out, item
        self.s = scenario.Session.__new__(scenario.Session)
        s = self.s
        s.out, s.opts, s.pb_pid, s.da_pid, s.pb_status, s.da_status, s.c = out, item, None, None, None, None, None
        s.start_adapter()
        self.c = s.c
        self.kinds, self.seq2i, self.cmds = [], {}, []

    def ask(self, kind, cmd, args):
        seq = self.c.seq
        self.kinds.append(kind)
        self.cmds.append(cmd)
        self.seq2i[seq] = len(self.kinds)
        self.c.request(cmd, args)
        return len(self.kinds)

    def token(self, m):
        if m.get("type") == "response":
            i = self.seq2i.get(m.get("request_seq"), 0)
            return {"t": "resp", "i": i, "ok": bool(m.get("success"))}
        if m.get("type") == "event":
            return {"t": "ev", "e": m.get("event")}
        return {"t": "run"} if m.get("command") == "runInTerminal" else {"t": "request", "c": m.get("command")}

    def malformed(self):
        out = []
        for _, d, m in self.c.log:
            if d == "in" and m.get("type") == "response":
                i = self.seq2i.get(m.get("request_seq"), 0)
                if i and m.get("command") != self.cmds[i - 1]:
                    out.append(f"response to {self.cmds[i - 1]} says {m.get('command')}")
                if not m.get("success") and not m.get("message"):
                    out.append(f"error response to {self.cmds[i - 1]} without a message")
        if not self.c.seq_ok:
            out.append("messages are not numbered in order")
        return out

    def close_input(self):
        if self.c.w is not None:
            os.close(self.c.w)
            self.c.w = None

    def drain(self, timeout):
        """Reads to the end of the adapter's output."""
        end = time.monotonic() + timeout
        try:
            while time.monotonic() < end:
                self.c.poll(end - time.monotonic())
        except Gone:
            return True
        return False

    def log(self):
        return [m for _, d, m in self.c.log if d == "in"]


# ------------------------------------------------------------ ways to fail
def attach_bad(rnd, out):
    """Arguments of an attach request that cannot succeed, and what the reason says."""
    k = rnd.randrange(10)
    sock = os.path.join(out, "none")
    if k == 0:
        return {}, ["address", "processId"], "no-address"
    if k == 1:
        return {"processId": 4194299}, ["4194299"], "no-such-process"
    if k == 2:
        return {"address": "uds://" + sock}, ["No such file", "Errno 2"], "no-socket"
    if k == 3:
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        p = s.getsockname()[1]
        s.close()
        return {"address": f"tcp://127.0.0.1:{p}"}, ["refused"], "refused"
    if k == 4:
        return {"address": "http://x:1"}, ["scheme"], "bad-scheme"
    if k == 5:
        return {"address": "uds://" + sock, "useTls": True, "tlsVerification": os.path.join(out, "missing.pem")}, ["No such file", "missing.pem"], "no-ca"
    if k == 6:
        # accepted by nobody
        l = socket.socket(socket.AF_UNIX)
        p = os.path.join(out, f"l{rnd.randrange(10**9)}")
        l.bind(p)
        l.listen(1)
        KEEP.append(l)
        return {"address": "uds://" + p, "connectTimeout": 0.3}, ["timed out", "timeout"], "nobody-accepts"
    if k == 7:
        # closed before it was accepted
        l = socket.socket(socket.AF_UNIX)
        p = os.path.join(out, f"l{rnd.randrange(10**9)}")
        l.bind(p)
        l.listen(1)

        def shut():
            a, _ = l.accept()
            a.close()
        threading.Thread(target=shut, daemon=True).start()
        return {"address": "uds://" + p, "connectTimeout": 5}, ["closed", "reset"], "closed-at-once"
    if k == 8:
        p = os.path.join(out, f"ansibug-pid-{4100000 + rnd.randrange(9999)}")
        with open(p, "w") as f:
            f.write(rnd.choice(["{", "", "[]", '{"pid": 1}']))
        return {"processId": int(p.rsplit("-", 1)[1])}, [""], "damaged-process-file"
    return {"address": "tcp://127.0.0.1"}, ["port"], "no-port"


KEEP = []


def launch_bad(rnd):
    k = rnd.randrange(3)
    if k == 0:
        return {"args": ["-v"]}, ["playbook"], "no-playbook"
    if k == 1:
        return {"playbook": "x.yml", "console": "nowhere"}, ["nowhere", "console"], "bad-console"
    return {"playbook": "x.yml", "connectTimeout": "soon"}, ["soon", "float"], "bad-timeout"


PB = """- hosts: localhost
  gather_facts: false
  connection: local
  tasks:
  - ansible.builtin.debug: {msg: hi}
"""


# ---------------------------------------------------- replay of the model
def behaviour(item, out):
    """Acts of the model one by one, with what has to come after each."""
    rnd = random.Random(item["seed"])
    launch = item["mode"] == "launch"
    a = Adapter(out, item)
    peer = px = None
    procs = []
    bad = []
    addr = os.path.join(out, "s")
    garbage = rnd.choice([b"", b"", b"\x10\x00\x00\x00abc", b"\x05\x00\x00\x00hello", b"\x01"])
    state = {"owed": [], "answers": [], "events": [], "fwd": [], "run": None, "why": None}
    with open(os.path.join(out, "pb.yml"), "w") as f:
        f.write(PB)

    def config(p, m):
        from ansibug import dap
        if type(m).__name__ == "OutputEvent":
            p.send(dap.InitializedEvent())
    if not launch:
        if item["cut"]:
            peer = Peer(addr + ".real", config)
            px = proxy.Proxy(addr, addr + ".real")
        else:
            peer = Peer(addr, config)
    pos = 0
    got = []

    def act(x):
        nonlocal peer
        from ansibug import dap
        if x == "initialize":
            a.ask(x, "initialize", {"adapterID": "ansibug"})
            if state["conn"]:
                state["fwd"].append(len(a.kinds))
        elif x == "attach-ok":
            a.ask(x, "attach", {"address": "uds://" + addr, "connectTimeout": 10})
            if state["conn"]:
                state["fwd"].append(len(a.kinds))
        elif x == "attach-bad":
            args, why, what = attach_bad(rnd, out)
            a.ask(x, "attach", args)
            state["why"] = (why, what) if not state["conn"] and not state["gone"] else None
            if state["conn"]:
                state["fwd"].append(len(a.kinds))
        elif x == "launch-ok":
            die = "term-dies" in item["acts"]
            if state["asked"] or state["gone"]:
                die = False
            else:
                state["dying"] = None
            state["dying"] = state["dying"] if not die else rnd.choice(["missing", "syntax", "killed", "badopt"]) if die else None
            if die:
                with open(os.path.join(out, "bad.yml"), "w") as f:
                    f.write("- hosts: [\n")
            args = {"playbook": {"missing": "none.yml", "syntax": "bad.yml"}.get(state["dying"], "pb.yml"), "cwd": out,
                    "args": ["-i", "localhost,"] + (["--no-such-option"] if state["dying"] == "badopt" else []),
                    "connectTimeout": 0.6 if "term-never" in item["acts"] else 30.0}
            a.ask(x, "launch", args)
        elif x == "launch-bad":
            args, why, what = launch_bad(rnd)
            a.ask(x, "launch", args)
            state["why"] = (why, what) if not state["conn"] and not state["asked"] and not state["gone"] else None
        elif x == "forward":
            c, g = rnd.choice(ASKS_EARLY if launch else ASKS)
            i = a.ask(x, c, g)
            if state["conn"]:
                state["fwd"].append(i)
        elif x == "unsupported":
            a.ask(x, rnd.choice(UNSUPPORTED), {})
        elif x == "disconnect":
            a.ask(x, "disconnect", rnd.choice([{}, {"terminateDebuggee": True}, {"restart": False}, {"terminateDebuggee": False}]) if not launch else {})
            if state["conn"]:
                state["fwd"].append(len(a.kinds))
        elif x == "eof":
            a.close_input()
        elif x in ("answer-ok", "answer-error"):
            peer.until(lambda: len([m for m in peer.requests()]) > len(state["answers"]))
            rs = peer.requests()
            if len(rs) <= len(state["answers"]):
                bad.append("the debuggee never got the request")
                return
            m = rs[len(state["answers"])]
            txt = f"text {len(state['answers'])} \u00fc"
            state["answers"].append({"i": a.seq2i.get(m.seq, 0), "ok": x == "answer-ok", "txt": txt})
            peer.send(answer(m, x == "answer-ok", txt))
        elif x == "event":
            state["events"].append("output")
            peer.send(dap.OutputEvent(category="console", output="o \u00fc \n"))
        elif x in ("close", "cut"):
            if launch:
                sig = signal.SIGTERM if x == "close" else signal.SIGKILL
                for p in state["children"]():
                    try:
                        os.kill(p, sig)
                    except OSError:
                        pass
            elif x == "cut":
                px.brk(garbage)
            else:
                peer.close()
        elif x == "term-run":
            procs.append(terminal(state["run"]))
            respond(procs[-1])
        elif x == "term-dies":
            procs.append(terminal(state["run"]))
            if state["dying"] == "killed":
                # what the script runs, as soon as it does
                end = time.monotonic() + 10
                sig = rnd.choice([signal.SIGTERM, signal.SIGKILL])
                while time.monotonic() < end and not killed(procs[-1].pid, sig):
                    time.sleep(0.002)
            respond(procs[-1])
        elif x == "term-never":
            state["why"] = (["timed out", "timeout"], "never-connects")
            a.c.respond(state["run"], {"processId": 1})

    def respond(p):
        a.c.respond(state["run"], rnd.choice([{"processId": p.pid}, {"shellProcessId": p.pid}, {}]))

    def terminal(m):
        g = m["arguments"]
        env = dict(os.environ, TMPDIR=out, PYTHONPATH=os.path.join(zyg.REPO, "src"))
        for k, v in (g.get("env") or {}).items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        lf = open(os.path.join(out, "term.log"), "ab")
        return subprocess.Popen(g["args"], cwd=g.get("cwd") or out, env=env, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, start_new_session=True)

    def kids(pid):
        try:
            with open(f"/proc/{pid}/task/{pid}/children") as f:
                k = [int(x) for x in f.read().split()]
        except OSError:
            return []
        return k + [y for x in k for y in kids(x)]

    def killed(pid, sig):
        """Kills what the script starts, not the tools it uses itself."""
        for k in kids(pid):
            try:
                with open(f"/proc/{k}/cmdline", "rb") as f:
                    if b"\0-m\0ansib" in f.read():
                        os.kill(k, sig)
                        return True
            except OSError:
                pass
        return False

    state["children"] = lambda: [x for p in procs for x in kids(p.pid)]
    state["conn"] = state["gone"] = state["asked"] = False
    early = []
    try:
        for h in item["hist"]:
            x = h["a"]
            try:
                act(x)
            except Gone:
                bad.append(f"{x}: the adapter was already gone")
                break
            want = list(h["out"])
            new = []
            end = time.monotonic() + (30 if launch else T0)
            try:
                while len(new) < len(want):
                    m = a.c.next(max(0.01, end - time.monotonic()))
                    new.append(a.token(m))
                    if m.get("command") == "runInTerminal":
                        state["run"] = m
                        state["asked"] = True
                    if new[-1]["t"] == "resp" and new[-1]["ok"] and a.kinds[new[-1]["i"] - 1] in ("attach-ok", "launch-ok") and not state["conn"] and not state["gone"]:
                        state["conn"] = True
                        if peer and peer.t_accept is None:
                            early.append("attach answered before the debuggee accepted")
                    txt = shown(m) if new[-1]["t"] == "resp" else None
                    for y in state["answers"]:
                        if new[-1]["t"] == "resp" and new[-1]["i"] == y["i"] and x.startswith("answer") and txt is not None and txt != y["txt"]:
                            bad.append(f"answer {y['txt']!r} arrived as {txt!r}")
                    if new[-1]["t"] == "resp" and not new[-1]["ok"] and state["why"] and not any(w.lower() in (m.get("message") or "").lower() for w in state["why"][0]):
                        bad.append(f"{x} ({state['why'][1]}): the reason is not in {str(m.get('message'))[-300:]!r}")
            except (Gone, Timeout):
                pass
            got += new
            if any(y == {"t": "ev", "e": "terminated"} for y in new) and x not in ("disconnect", "eof"):
                state["gone"], state["conn"] = True, False
            if bag(new) != bag(want):
                bad.append(f"after {x}: required {brief(want, a)}, got {brief(new, a)}")
                break
            if {"t": "ev", "e": "terminated"} in new and x == "disconnect":
                k = [y for y, z in enumerate(new) if z["t"] == "resp" and z["i"] == len(a.kinds)]
                if k and k[0] > new.index({"t": "ev", "e": "terminated"}):
                    bad.append("terminated sent before the disconnect was answered")
        acts = [h["a"] for h in item["hist"]]
        over = item["exit"] != "run"
        if not bad and not over:
            # nothing more may come by itself
            time.sleep(0.03)
            try:
                a.c.poll(0)
            except Gone:
                bad.append("the adapter ended by itself")
            if a.c.pos < len(a.c.inbox):
                bad.append(f"sent by itself: {brief([a.token(m) for m in a.c.inbox[a.c.pos:]], a)}")
        if not bad:
            if not over:
                a.close_input()
            if not a.drain(T0):
                bad.append("the adapter did not end")
            else:
                rest = [a.token(m) for m in a.c.inbox[a.c.pos:]]
                if over and rest:
                    bad.append(f"sent after the end: {brief(rest, a)}")
                rc = a.s.wait_exit("da", T0)
                if rc is None:
                    bad.append("the adapter did not exit")
                elif (rc == 0) != (item["exit"] in ("ok", "run")):
                    bad.append(f"exit code {rc}, required {item['exit']}")
        if peer and not bad:
            peer.until(lambda: peer.closed or not peer.connected, 5)
            want = [i for i in state["fwd"]]
            have = [a.seq2i.get(m.seq, 0) for m in peer.requests()]
            lost = acts and acts[-1] in ("close", "cut")
            if have != want and not (any(y in ("close", "cut") for y in acts) and have == want[:len(have)]):
                bad.append(f"forwarded {have}, required {want}")
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        if peer:
            peer.close()
        a.s.kill()
    da = ""
    if bad:
        da = a.s.read("da.log")[-800:] + (a.s.read("term.log")[-600:] if launch else "")
    mal = a.malformed()
    return {"bad": bad, "malformed": mal, "early": early, "log": da, "why": state["why"][1] if state["why"] else None}


def bag(toks):
    return sorted(json.dumps(t, sort_keys=True) for t in toks)


def brief(toks, a):
    out = []
    for t in toks:
        if t["t"] == "resp":
            i = t["i"]
            out.append(("ok " if t["ok"] else "error ") + (f"{i}:{a.cmds[i - 1]}" if 0 < i <= len(a.cmds) else f"to nothing({i})"))
        else:
            out.append(t.get("e") or t.get("c") or t["t"])
    return out


# -------------------------------------------------------------- bursts
def burst(item, out):
    """Everybody sends without waiting for anybody."""
    from ansibug import dap
    rnd = random.Random(item["seed"])
    a = Adapter(out, item)
    addr = os.path.join(out, "s")
    via = item["end"] == "cut"
    owed = []
    lock, order = threading.Condition(), threading.Lock()
    answers, sent_events = [], []
    stop = threading.Event()
    finished = threading.Event()
    prnd = random.Random(item["seed"] + "p")
    nreq = [0]

    def tell(p, e):
        with order:
            if p.send(e):
                sent_events.append(e.event.value)

    def on(p, m):
        if type(m).__name__ == "OutputEvent":
            tell(p, dap.InitializedEvent())
        elif type(m).__name__.endswith("Request") and m.command.value != "disconnect":
            with lock:
                owed.append(m)
                lock.notify()
    peer = Peer(addr + ".real" if via else addr, on, wait=item["late"])
    px = proxy.Proxy(addr, addr + ".real") if via else None

    def talk():
        """The debuggee's own thread: answers in order, with events in between."""
        k = 0
        if not peer.until(lambda: peer.connected, 20):
            return
        while not stop.is_set():
            if k < 25 and prnd.random() < item["events"]:
                e = prnd.choice([dap.OutputEvent(category="stdout", output=f"e{k}"), dap.ThreadEvent(reason="started", thread_id=k), dap.StoppedEvent(reason=dap.StoppedReason.STEP, thread_id=k)])
                tell(peer, e)
                k += 1
            with lock:
                if not owed:
                    lock.wait(0.01)
                m = owed.pop(0) if owed else None
            if m:
                if prnd.random() < 0.2:
                    time.sleep(prnd.choice([0, 0.001, 0.01]))
                ok = prnd.random() < 0.75
                t = f"t{m.seq}"
                if peer.send(answer(m, ok, t)):
                    answers.append({"i": a.seq2i.get(m.seq, 0), "ok": ok, "txt": t})
            if item["peer_leaves"] is not None and len(answers) >= item["peer_leaves"]:
                break
        if item["peer_leaves"] is not None and not stop.is_set():
            if via:
                px.brk(prnd.choice([b"", b"\x00\x01", b"\x20\x00\x00\x00zz"]))
            else:
                peer.close()
        finished.set()
    th = threading.Thread(target=talk, daemon=True)
    th.start()
    fwd = []
    hang = ""
    seen = []
    try:
        try:
            for x in item["script"]:
                if x[0] == "pause":
                    end = time.monotonic() + x[1]
                    while time.monotonic() < end:
                        a.c.poll(end - time.monotonic())
                elif x[0] == "attach-ok":
                    a.ask(x[0], "attach", {"address": "uds://" + addr, "connectTimeout": 20})
                elif x[0] == "attach-bad":
                    args, _, _ = attach_bad(rnd, out)
                    a.ask(x[0], "attach", args)
                elif x[0] == "settle":
                    # until the debuggee said hello
                    end = time.monotonic() + T0
                    while not any(m.get("event") in ("initialized", "terminated") for m in a.c.inbox):
                        if time.monotonic() > end:
                            raise Timeout
                        a.c.poll(end - time.monotonic())
                else:
                    a.ask(x[0], x[1], x[2])
            e = item["end"]
            if e in ("peer", "cut"):
                end = time.monotonic() + T0
                while not any(m.get("event") == "terminated" for m in a.c.inbox):
                    if time.monotonic() > end:
                        hang = "no terminated event after the debuggee left"
                        break
                    a.c.poll(max(0.01, end - time.monotonic()))
                for x in item["after"]:
                    a.ask(x[0], x[1], x[2])
            if item["final"] == "disconnect":
                a.ask("disconnect", "disconnect", rnd.choice([{}, {"terminateDebuggee": True}]))
                for x in item["beyond"]:
                    a.ask(x[0], x[1], x[2])
            if item["final"] == "eof" or rnd.random() < 0.5:
                a.close_input()
        except Gone:
            pass
        except Timeout:
            hang = "stuck while being set up"
        if not a.drain(T0):
            hang = hang or "the adapter did not end"
        rc = a.s.wait_exit("da", T0)
    finally:
        stop.set()
        peer.until(lambda: peer.closed or not peer.connected, 3)
        th.join(3)
        peer.close()
        a.s.kill()
    msgs = a.log()
    toks = [a.token(m) for m in msgs]
    # which requests the adapter has certainly taken
    kinds = a.kinds
    last = kinds.index("disconnect") + 1 if "disconnect" in kinds else len(kinds)
    if rc not in (0, None):
        last = max([t["i"] for t in toks if t["t"] == "resp"], default=0)
    seen = list(range(1, last + 1))
    conn = any(t["t"] == "resp" and t["ok"] and kinds[t["i"] - 1] == "attach-ok" for t in toks if t.get("i"))
    att = kinds.index("attach-ok") + 1 if "attach-ok" in kinds else 10 ** 6
    fwd = [i for i in seen if i > att and kinds[i - 1] != "unsupported"] if conn else []
    early = []
    for t, d, m in a.c.log:
        if d == "in" and m.get("type") == "response" and m.get("success") and a.seq2i.get(m.get("request_seq")) == att and (peer.t_accept is None or t < peer.t_accept):
            early.append("attach answered before the debuggee accepted")
    mal = a.malformed()
    for y in answers:
        for m in msgs:
            if m.get("type") == "response" and a.seq2i.get(m.get("request_seq")) == y["i"] and m.get("success") and shown(m) not in (None, y["txt"]):
                mal.append(f"answer {y['txt']} arrived as {shown(m)}")
    left = item["peer_leaves"] is not None and finished.is_set()
    first = item["end"] in ("peer", "cut")
    return {"trace": {"log": toks, "kinds": kinds, "seen": seen, "open": [], "exit": "ok" if rc == 0 else "run" if rc is None else "error", "asked": 0,
                      "pgone": left, "conn": conn, "events": sent_events, "allevents": first and item["end"] == "peer" and not hang and conn,
                      "got": [a.seq2i.get(m.seq, 0) for m in peer.requests()], "forwarded": fwd, "allgot": conn and not left and not hang,
                      "answers": [{"i": y["i"], "ok": y["ok"]} for y in answers], "racing": not (first and item["end"] == "peer"),
                      "early": early, "malformed": mal},
            "hang": hang, "rc": rc, "log": a.s.read("da.log")[-600:] if hang or rc not in (0,) else ""}


def random_burst(rnd, k):
    def req():
        if rnd.random() < 0.12:
            return ["unsupported", rnd.choice(UNSUPPORTED), {}]
        c, g = rnd.choice([x for x in ASKS])
        return ["forward", c, g]

    def some(n):
        out = []
        for _ in range(n):
            if rnd.random() < 0.15:
                out.append(["pause", rnd.choice([0, 0.001, 0.005, 0.02])])
            out.append(req())
        return out
    script = []
    if rnd.random() < 0.8:
        script.append(["initialize", "initialize", {"adapterID": "ansibug"}])
    for _ in range(rnd.choice([0, 0, 0, 1, 2])):
        script.append(["unsupported", rnd.choice(UNSUPPORTED), {}])
    end = rnd.choice(["client", "client", "peer", "peer", "race", "cut", "bad"])
    if end == "bad":
        script += [["attach-bad"] if rnd.random() < 0.7 else req()] + some(rnd.randint(0, 3))
    else:
        script.append(["attach-ok"])
        if rnd.random() < 0.4:
            script.append(["settle"])
        script += some(rnd.choice([0, 1, 3, 8, 20]))
    leaves = None
    nf = sum(1 for x in script if x[0] == "forward")
    if end in ("peer", "cut", "race"):
        leaves = rnd.choice([0, nf // 2, nf])
    if end in ("peer", "cut") and ["settle"] not in script:
        script.append(["settle"]) if leaves == nf else None
    return {"seed": f"{k}/{rnd.random()}", "script": script, "end": end, "peer_leaves": leaves, "late": rnd.choice([0, 0, 0, 0.05, 0.2]),
            "events": rnd.choice([0, 0.2, 0.6]), "final": rnd.choice(["disconnect", "disconnect", "eof"]),
            "after": [x for x in some(rnd.choice([0, 0, 1, 2])) if x[0] != "pause"],
            "beyond": [req()] if rnd.random() < 0.15 else [],
            "delay": rnd.random() if rnd.random() < 0.5 else None}


# ------------------------------------------------------------- the check
C13_ACTS = {"attach-bad", "launch-bad", "attach-ok", "launch-ok", "disconnect", "eof", "close", "cut", "term-run", "term-dies", "term-never"}
RULES = {"one_of_its_own": "C12", "all_answered": "C12", "terminated_once": "C13", "quiet_after_terminated": "C13", "disconnect_first": "C13",
         "failures_answered": "C13", "initialized_once": "C13", "events_pass": "*", "requests_pass": "C12", "answers_pass": "C12",
         "connected_first": "C13", "well_formed": "C12", "exits": "C13"}


def model(rep, mode, acts, th):
    res = tlc.must(tlc.run("Adapter", constants={"MaxActs": acts, "Mode": f'"{mode}"'}, workers=6, timeout=300, mem="6g"), "Adapter")
    rep.tlc(res)
    return tlc.prints(res, "BEH")


def select(rnd, beh, n):
    """Covers every pair of acts and every end before anything is repeated."""
    by = {}
    for b in beh:
        acts = [h["a"] for h in b["hist"]]
        for x in set(zip(["start"] + acts, acts)) | {(tuple(acts[-2:]), b["exit"])}:
            by.setdefault(str(x), []).append(b)
    out, ids = [], set()
    keys = sorted(by)
    while len(out) < n:
        more = False
        rnd.shuffle(keys)
        for k in keys:
            c = [b for b in by[k] if id(b) not in ids]
            if c and len(out) < n:
                b = rnd.choice(c)
                ids.add(id(b))
                out.append(b)
                more = True
        if not more:
            break
    return out


def concerns(prop, act):
    return (act in C13_ACTS) if prop == "C13" else True


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/{prop}")
    th = tier == "thorough"
    # the protocol itself, in every interleaving
    free = tlc.must(tlc.run("Adapter", "AdapterFree.cfg", constants={"MaxActs": 5 if th else 3}, workers=6, timeout=600, mem="8g"), "AdapterFree")
    rep.tlc(free)
    items = []
    for mode, acts, n in (("attach", 6 if th else 5, 6000 if th else 420), ("launch", 6 if th else 5, 500 if th else 60)):
        beh = model(rep, mode, acts, th)
        rep.count(f"behaviours_{mode}", len(beh))
        for k, b in enumerate(select(rnd, beh, n)):
            al = [h["a"] for h in b["hist"]]
            items.append({"mode": mode, "hist": b["hist"], "exit": b["exit"], "acts": al, "cut": "cut" in al, "seed": f"{seed}/{prop}/{k}"})
    rnd.shuffle(items)
    items.sort(key=lambda x: x["mode"] != "launch")
    results = zyg.run_many(items, behaviour, timeout=100, budget=420 if th else 110)
    for it, r in zip(items, results):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        name = f"{it['mode']}:{'.'.join(it['acts'])}"
        rp = {"kind": "behaviour", "item": it}
        if "harness_error" in r:
            rep.broken(r, name, rp)
            continue
        rep.count("behaviours_replayed")
        for b in r["bad"]:
            m = b.split("after ", 1)[-1].split(":")[0]
            if belongs(prop, b, m):
                rep.viol(f"behaviour:{name}", f"{b} log={r['log']}", rp)
        if prop == "C12":
            for b in r["malformed"]:
                rep.viol(f"malformed:{b[:60]}", b, rp)
        elif r["early"]:
            rep.viol(f"early:{name}", r["early"][0], rp)
    items = [random_burst(rnd, f"{seed}/{prop}/{k}") for k in range(4000 if th else 260)]
    results = zyg.run_many(items, burst, timeout=100, budget=250 if th else 60)
    tr = []
    for k, (it, r) in enumerate(zip(items, results)):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        if "harness_error" in r:
            rep.broken(r, f"burst:{it['end']}", {"kind": "burst", "item": it})
            continue
        rep.count("bursts")
        rep.count("requests", len(r["trace"]["kinds"]))
        if r["hang"] and prop == "C13":
            rep.viol(f"hang:{it['end']}", f"{r['hang']} log={r['log']}", {"kind": "burst", "item": it})
        r["trace"]["id"] = str(k)
        tr.append(r["trace"])
    judge(rep, prop, tr, items)
    rep.sample({"behaviour": [[h["a"], h["out"]] for h in items and select(rnd, beh, 1)[0]["hist"]]})
    rep.sample({"burst": items[0]["script"][:5]})
    if prop == "C12":
        from . import ck_requests
        ck_requests.run(rep, rnd, th, seed)


def belongs(prop, b, m):
    """Which property a difference is about."""
    if m not in C13_ACTS:
        return prop == "C12" or "end" in b or "exit" in b or "terminated" in b or "itself" in b
    if prop == "C13":
        return True
    # answers still owed when the session ends are C12's as well
    return "forwarded" in b or "error" in b


def judge(rep, prop, tr, items):
    if not tr:
        return
    res = tlc.must(tlc.run("AdapterTrace", env={"TRACES": tlc.dump(tr, "atraces.json")}, workers=4, timeout=300), "AdapterTrace")
    rep.tlc(res)
    out = tlc.prints(res, "RES")
    if len(out) != len(tr):
        raise RuntimeError("AdapterTrace did not judge every session")
    rep.traces += len(out)
    by = {t["id"]: t for t in tr}
    for o in out:
        for b in o["bad"]:
            if RULES[b] in (prop, "*"):
                it = items[int(o["id"])]
                t = by[o["id"]]
                rep.viol(f"{b}:{it['end']}:{it['final']}", json.dumps({k: t[k] for k in t if k not in ("id",)})[:1500], {"kind": "burst", "item": it, "trace": t})


def replay(obj):
    if obj["kind"] == "requests":
        from . import ck_requests
        return ck_requests.replay(obj)
    f = {"behaviour": behaviour, "burst": burst}[obj["kind"]]
    return zyg.run_many([obj["item"]], f, timeout=120)[0]
