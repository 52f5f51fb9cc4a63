"""The channel between the adapter and the debuggee (C16).

Channel.tla gives what may be done to the two ends and to the stream between them;
TLC picks behaviours, they are carried out with the real endpoints (over a proxy
that holds, fragments, cuts and resets the stream, or directly), and ChannelTrace.tla
judges everything the callers and receivers saw.
"""
from __future__ import annotations
import json, os, queue, random, select, socket, struct, threading, time
from . import zyg, tlc, certs

LEVEL = "model_checking"
SIZES = {"s": (0, 40), "m": (3000, 9000), "l": (150000, 400000), "x": (5000000, 9000000)}
TMO = 0.7
IDLE = 9.0


class Log:
    def __init__(self):
        self.ev, self.lock, self.last = [], threading.Lock(), time.monotonic()

    def add(self, t, **k):
        with self.lock:
            self.ev.append({"t": t, **k})
            self.last = time.monotonic()

    def touch(self):
        self.last = time.monotonic()


class Proxy:
    """Between the client and the server: everything passes in pieces, unless it is held, cut or reset."""

    def __init__(self, fam, up, log, rnd, tls, out):
        self.fam, self.up, self.log, self.rnd, self.tls = fam, up, log, rnd, tls
        self.held, self.broken = set(), False
        self.cond = threading.Condition()
        self.mid = {"s": False, "c": False}
        self.left = {"s": 1, "c": 0}          # bytes until the frame boundary (the server's greeting first)
        self.head = {"s": b"", "c": b""}
        self.stopat = None                    # (direction, "cut" or "mid")
        self.mode = rnd.choice(["whole", "bytes", "mixed"])
        self.pair = None
        if fam == "uds":
            self.l = socket.socket(socket.AF_UNIX)
            self.addr = os.path.join(out, "p")
            self.l.bind(self.addr)
            self.url = "uds://" + self.addr if False else "uds:" + self.addr
        else:
            self.l = socket.socket(socket.AF_INET6)
            self.l.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 0)
            self.l.bind(("::", 0))
            self.url = f"tcp://localhost:{self.l.getsockname()[1]}"
        self.l.listen(5)
        threading.Thread(target=self.serve, daemon=True).start()

    def serve(self):
        while True:
            c, _ = self.l.accept()
            s = socket.socket(socket.AF_UNIX if self.fam == "uds" else socket.AF_INET6)
            try:
                s.connect(self.up)
            except OSError:
                c.close()
                continue
            with self.cond:
                if self.broken:
                    c.close(); s.close()
                    continue
                c.settimeout(0.03); s.settimeout(0.03)
                self.pair = {"c": c, "s": s}
                self.pumps = 2
            for d in ("c", "s"):
                threading.Thread(target=self.pump, args=(d, self.pair[d], self.pair["s" if d == "c" else "c"]), daemon=True).start()

    def account(self, d, b):
        """Follow the frames of a plain stream: where a message begins and ends."""
        while b:
            if self.left[d]:
                n = min(self.left[d], len(b))
                self.left[d] -= n
                b = b[n:]
            else:
                n = 4 - len(self.head[d])
                self.head[d] += b[:n]
                b = b[n:]
                if len(self.head[d]) == 4:
                    self.left[d] = int.from_bytes(self.head[d], "little")
                    self.head[d] = b""

    def inside(self, d):
        return bool(self.left[d] or self.head[d])

    def to_boundary(self, d, b):
        """How many of these bytes bring the stream to the next frame boundary (None: not within them)."""
        left, head, n = self.left[d], len(self.head[d]), 0
        if not left and not head:
            return 0
        buf = self.head[d]
        if head:
            take = min(4 - head, len(b))
            buf += b[:take]
            n += take
            if len(buf) < 4:
                return None
            left = int.from_bytes(buf, "little")
        return n + left if n + left <= len(b) else None

    def piece(self, b):
        if self.mode == "whole" or (self.mode == "mixed" and self.rnd.random() < 0.7):
            return len(b)
        return self.rnd.choice((1, 2, 3, 5, 17, 1000, 4096)) if len(b) < 30000 else self.rnd.choice((5, 1000, 65536))

    def pump(self, d, src, dst):
        dead = False
        try:
            while True:
                try:
                    b = src.recv(65536)
                except TimeoutError:
                    if self.broken:
                        return
                    continue
                except OSError:
                    b = b""
                with self.cond:
                    self.cond.wait_for(lambda: self.broken or d not in self.held)
                    if self.broken:
                        return
                if not b:
                    break
                self.log.touch()
                while b and not dead:
                    n = self.piece(b)
                    with self.cond:
                        self.cond.wait_for(lambda: self.broken or d not in self.held)
                        if self.broken:
                            return
                        if self.stopat and self.stopat[0] == d:
                            if self.stopat[1] == "cut":
                                k = self.to_boundary(d, b)
                                n = min(n, k) if k else (n if k is None else 0)
                            else:
                                # to somewhere inside a message
                                n = 0 if self.inside(d) else min(len(b), self.rnd.randint(1, 3))
                            if n == 0:
                                self.finish()
                                return
                        one = b[:n]
                        if not self.tls:
                            self.account(d, one)
                    b = b[n:]
                    while one and not dead:
                        try:
                            one = one[dst.send(one):]
                        except TimeoutError:
                            with self.cond:
                                if self.broken:
                                    return
                        except OSError:
                            dead = True
            try:
                dst.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        finally:
            with self.cond:
                self.pumps -= 1
                self.cond.notify_all()

    def finish(self, rst=False):
        """(with the lock) End both directions now."""
        if self.broken:
            return
        mid = [] if self.tls else [d for d in ("s", "c") if self.inside(d) and self.pair]
        self.broken = True
        self.held.clear()
        self.log.add("break", k="rst" if rst else "cut", mid=mid)
        self.cond.notify_all()
        threading.Thread(target=self.close, args=(rst,), daemon=True).start()

    def close(self, rst):
        with self.cond:
            # (one of them may be the caller)
            self.cond.wait_for(lambda: not self.pumps, 5)
        for s in (self.pair or {}).values():
            try:
                if rst:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                else:
                    s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            s.close()

    pumps = 0

    def hold(self, d):
        with self.cond:
            self.held.add(d)
            self.log.add("hold", e=d)

    def free(self):
        with self.cond:
            self.log.add("free")
            self.held.clear()
            self.cond.notify_all()

    def brk(self, k, d):
        with self.cond:
            if self.broken:
                return
            if k == "rst" or self.tls or not self.pair:
                return self.finish(k == "rst")
            self.held.discard(d)
            self.stopat = (d, k)
            if k == "cut" and not self.inside(d):
                return self.finish()
            if k == "mid" and self.inside(d):
                return self.finish()
            self.cond.notify_all()
            # (the pump ends it; when nothing comes any more it is cut where it is)
            if not self.cond.wait_for(lambda: self.broken, 1.5):
                self.finish()


class End:
    def __init__(self, e, q, token, log, tmo, rnd):
        self.e, self.q, self.token, self.log, self.tmo, self.rnd = e, q, token, log, tmo, rnd
        self.todo = queue.SimpleQueue()
        self.up = False
        self.n = 0
        threading.Thread(target=self.work, daemon=True).start()

    def work(self):
        while True:
            op, x = self.todo.get()
            if op == "start":
                self.start()
            elif op == "send" and self.up:
                self.send(x)
            elif op == "stop":
                self.stop()

    def start(self):
        from ansibug._socket_helper import CancelledError
        t0 = time.monotonic()
        self.log.add("start", e=self.e)
        why = ""
        try:
            self.q.start(timeout=TMO if self.tmo else 0)
            r = "ok"
        except TimeoutError:
            r = "timeout"
        except CancelledError:
            r = "cancelled"
        except OSError as e:
            r, why = "error", repr(e)
        except BaseException as e:
            r, why = "other", repr(e)
        self.up = r == "ok"
        self.log.add("started", e=self.e, r=r, early=time.monotonic() - t0 < TMO * 0.95, why=why)

    def send(self, m):
        from ansibug._socket_helper import CancelledError
        self.log.add("send", e=self.e)
        why = ""
        try:
            self.q.send(m)
            r = "ok"
        except CancelledError:
            r = "cancelled"
        except OSError as e:
            r, why = "error", repr(e)
        except BaseException as e:
            r, why = "other", repr(e)
        if r != "ok":
            self.up = False
        self.log.add("sent", e=self.e, r=r, why=why)

    def stop(self):
        self.log.add("stop", e=self.e)
        ok, why = True, ""
        try:
            self.q.stop()
        except BaseException as e:
            ok, why = False, repr(e)
        self.log.add("stopped", e=self.e, ok=ok, why=why)

    def cancel(self):
        self.log.add("cancel", e=self.e)
        ok, why = True, ""
        try:
            self.token.cancel()
        except BaseException as e:
            ok, why = False, repr(e)
        self.log.add("cancelled", e=self.e, ok=ok, why=why)


def owed(ev, cf):
    """What Channel.tla says is owed after these events (only decides how long to wait)."""
    E = ("s", "c")
    ph = dict.fromkeys(E, "new"); told = dict.fromkeys(E, False)
    begun = dict.fromkeys(E, 0); whole = dict.fromkeys(E, 0); got = dict.fromkeys(E, 0)
    asked, gone, sending, stops, held, broken, loss = set(), set(), set(), set(), set(), False, set()
    cancels, hasty = set(), set()
    for v in ev:
        t, e = v["t"], v.get("e")
        p = "c" if e == "s" else "s"
        if t == "start": ph[e] = "starting"
        elif t == "started": ph[e] = "up" if v["r"] == "ok" else "failed"
        elif t == "send":
            begun[e] += 1; sending.add(e)
            if p in asked: loss.add(p)
        elif t == "sent":
            sending.discard(e)
            if v["r"] == "ok": whole[e] = begun[e]
        elif t == "recv": got[e] += 1
        elif t == "closed": told[e] = True
        elif t in ("stop", "cancel"):
            asked.add(e); (stops if t == "stop" else cancels).add(e)
            if begun[p] > got[e] or ph[e] == "starting": loss.add(e)
            if t == "stop" and ph[e] == "starting": hasty.add(e)
        elif t == "stopped":
            stops.discard(e)
            if ph[e] != "starting" and not (e in hasty and ph[e] == "up"): gone.add(e)
        elif t == "cancelled": cancels.discard(e)
        elif t == "hold": held.add(e)
        elif t == "free": held.clear()
        elif t == "break": broken = True; held.clear()
    out = set()
    for e in E:
        p = "c" if e == "s" else "s"
        if ph[e] == "starting" and (e in asked or cf["tmo"][e] or (cf["wire"] != "mute" and ph[p] in ("starting", "up") and not held and not broken and p not in asked) or
                                    (e == "c" and cf["wire"] != "mute" and (("s" in gone and not held) or broken))):
            out.add((e, "start"))
        if e in sending and (e in asked or broken or (e not in held and (p in gone or (ph[p] == "up" and not told[p])))):
            out.add((e, "send"))
        if ph[e] == "up" and not told[e]:
            if e not in asked and p not in held and not broken and got[e] < whole[p] and p not in loss:
                out.add((e, "message"))
            if e in asked or broken or (p in gone and ph[p] == "up" and p not in held and not (cf["tls"] and e in held and begun[e] > got[p])):
                out.add((e, "close"))
        if e in stops or e in cancels:
            out.add((e, "stop"))
    return out


def settle(log, cf, idle=IDLE):
    while True:
        with log.lock:
            n = len(log.ev)
            o = owed(log.ev, cf)
            if not o:
                # a little longer for what should not come
                pass
        if not o:
            time.sleep(0.03)
            with log.lock:
                if len(log.ev) == n:
                    log.ev.append({"t": "quiet"})
                    return
            continue
        if time.monotonic() - log.last > idle:
            log.add("quiet")
            return
        time.sleep(0.004)


def scene(item, out):
    from ansibug import dap
    from ansibug._mp_queue import ClientMPQueue, MPProtocol, ServerMPQueue
    from ansibug._socket_helper import SocketCancellationToken
    from ansibug._tls import create_client_tls_context, create_server_tls_context
    if item["log"]:
        import logging
        logging.basicConfig(filename=os.path.join(out, "log"), level=logging.DEBUG)
    if item["delay"]:
        from . import delay
        delay.install(item["seed"])
    rnd = random.Random(item["seed"])
    cf = item["cf"]
    log = Log()
    texts = {}

    class P(MPProtocol):
        def __init__(self, e):
            self.e, self.p = e, "c" if e == "s" else "s"

        def on_msg_received(self, msg):
            i = int(msg.category[1:]) if str(getattr(msg, "category", ""))[:1] == self.p else 0
            log.add("recv", e=self.e, i=i, exact=bool(i) and msg == texts.get((self.p, i)))

        def connection_closed(self, exp):
            log.add("closed", e=self.e, err=exp is not None, why=repr(exp)[:200])

    sctx = cctx = None
    if cf["tls"]:
        sctx = create_server_tls_context(os.path.join(item["certs"], "server.pem"))
        cctx = create_client_tls_context(os.path.join(item["certs"], "ca.pem") if cf["tr"] == "tcp" else "ignore")
    tok = {e: SocketCancellationToken() for e in "sc"}
    path = os.path.join(out, "q")
    q = {"s": ServerMPQueue("uds:" + path if cf["tr"] == "uds" else "tcp://", lambda: P("s"), ssl_context=sctx, cancel_token=tok["s"])}
    a = q["s"].address
    px = None
    if cf["tr"] == "uds":
        up, url = path, a
        if a != "uds://" + path:
            log.add("other", why=f"address {a}")
    else:
        port = int(a.rsplit(":", 1)[1])
        up, url = ("::1", port), f"tcp://{rnd.choice(['localhost', '127.0.0.1', '[::1]'] if not cf['tls'] else ['localhost'])}:{port}"
    if cf["wire"] == "proxy":
        px = Proxy(cf["tr"], up, log, rnd, cf["tls"], out)
        url = px.url
    if cf["wire"] == "mute":
        # its queue of connections is full: those that come later stay unanswered
        full = [socket.socket(socket.AF_INET6)]
        full[0].setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 0)
        full[0].bind(("::", 0))
        full[0].listen(0)
        port = full[0].getsockname()[1]
        for fam, host in ((socket.AF_INET6, "::1"), (socket.AF_INET, "127.0.0.1")) * 2:
            full.append(socket.socket(fam))
            full[-1].setblocking(False)
            full[-1].connect_ex((host, port))
        time.sleep(0.01)
        url = url[:url.rindex(":") + 1] + str(port)
    q["c"] = ClientMPQueue(url, lambda: P("c"), ssl_context=cctx, cancel_token=tok["c"])
    ends = {e: End(e, q[e], tok[e], log, cf["tmo"][e], rnd) for e in "sc"}
    n = {"s": 0, "c": 0}
    stopped = set()
    # a timeout is for what it was given for only
    linger = item["linger"]
    for st in item["script"]:
        op, e, x = st["op"], st["e"], st["x"]
        if op == "settle":
            settle(log, cf)
            if linger and any(v["t"] == "started" and v["r"] == "ok" and cf["tmo"][v["e"]] for v in log.ev):
                time.sleep(TMO * 1.4)
                linger = False
        elif op == "start":
            ends[e].todo.put(("start", None))
        elif op == "send":
            n[e] += 1
            lo, hi = SIZES[x]
            m = dap.OutputEvent(category=f"{e}{n[e]}", output=chr(rnd.choice((97, 0xfc, 0))) * rnd.randint(lo, hi) + str(rnd.random()))
            texts[(e, n[e])] = m
            ends[e].todo.put(("send", m))
        elif op == "stop":
            ends[e].todo.put(("stop", None))
            stopped.add(e)
        elif op in ("kill", "cancel"):
            if op == "kill":
                stopped.add(e)
            threading.Thread(target=ends[e].stop if op == "kill" else ends[e].cancel, daemon=True).start()
        elif op == "hold":
            px.hold(e)
        elif op == "free":
            px.free()
        elif op == "break":
            px.brk(x, e)
        if item["gap"] and op != "settle":
            time.sleep(rnd.random() * item["gap"])
    if px and px.held and rnd.random() < 0.7:
        px.free()
    settle(log, cf)
    if linger and any(v["t"] == "started" and v["r"] == "ok" and cf["tmo"][v["e"]] for v in log.ev):
        time.sleep(TMO * 1.4)
        settle(log, cf)
    # nothing is left to wait for a peer that does not come
    rest = [e for e in rnd.sample("sc", 2) if e not in stopped]
    for e in rest:
        mine = [v["t"] for v in log.ev if v.get("e") == e]
        if all(mine.count(x) == mine.count(y) for x, y in (("start", "started"), ("send", "sent"))):
            ends[e].todo.put(("stop", None))
        else:
            threading.Thread(target=ends[e].stop, daemon=True).start()
        if item["gap"]:
            time.sleep(rnd.random() * item["gap"])
    settle(log, cf)
    time.sleep(0.02)
    left = [t for t in threading.enumerate() if t.name.endswith("Recv")]
    for t in left:
        t.join(3)
    with log.lock:
        ev = list(log.ev)
    ev.append({"t": "end", "file": os.path.exists(path), "threads": len([t for t in left if t.is_alive()])})
    return {"cf": cf, "events": ev}


def behaviours(rep, seed, num):
    res = tlc.must(tlc.run("Channel", "ChannelSim.cfg", extra=("-simulate", f"num={num}", "-depth", "70", "-seed", str(seed)), workers=4, timeout=300), "ChannelSim")
    rep.transitions += res["generated"]
    seen, out = set(), []
    for b in sorted(set(json.dumps(b) for b in tlc.prints(res, "BEH"))):
        if b not in seen:
            seen.add(b)
            out.append(json.loads(b))
    return out


def features(b):
    s = b["script"]
    c = (b["cf"]["tr"], b["cf"]["tls"], b["cf"]["wire"])
    sig = [f"{x['op']}:{x['e']}{x['x']}" for x in s]
    f = {(c, x) for x in sig} | {(x, y) for x, y in zip(sig, sig[1:])} | {(x, y, z) for x, y, z in zip(sig, sig[1:], sig[2:])}
    f |= {(c, "tmo", json.dumps(b["cf"]["tmo"]))}
    return f


def select(rnd, beh, n):
    """Each new behaviour brings steps and sequences of steps that were not there yet."""
    rnd.shuffle(beh)
    seen, out, rest = set(), [], []
    todo = [(features(b), b) for b in beh]
    while todo and len(out) < n:
        cand = todo[:60]
        best = max(range(len(cand)), key=lambda k: len(cand[k][0] - seen))
        f, b = todo.pop(best)
        seen |= f
        out.append(b)
    return out


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/{prop}")
    th = tier == "thorough"
    for mc in ([{"MaxActs": 3}] if not th else [{"MaxActs": 5}, {"MaxActs": 4, "MaxSends": 2, "Calm": "{0, 3}"}]):
        rep.tlc(tlc.must(tlc.run("Channel", "ChannelMC.cfg", constants=mc, workers=6, timeout=800, mem="8g"), "ChannelMC"))
    beh = behaviours(rep, int(seed) + 100, 20000 if th else 3000)
    rep.count("behaviours", len(beh))
    cdir = certs.make(os.path.join(zyg.SCRATCH, "certs"))
    items = []
    for k, b in enumerate(select(rnd, beh, 6000 if th else 460)):
        items.append({"cf": b["cf"], "script": b["script"], "seed": f"{seed}/{prop}/{k}", "certs": cdir, "delay": rnd.random() < 0.5,
                      "linger": rnd.random() < 0.5, "log": rnd.random() < 0.1, "gap": rnd.choice((0, 0, 0.002, 0.02))})
    results = zyg.run_many(items, scene, timeout=120, budget=420 if th else 70)
    judge(rep, items, results)


def name(it):
    c = it["cf"]
    return f"{c['tr']}{'+tls' if c['tls'] else ''}:{c['wire']}"


def judge(rep, items, results):
    tr = []
    for k, (it, r) in enumerate(zip(items, results)):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        if "harness_error" in r:
            rep.broken(r, name(it), {"item": it})
            continue
        r["id"] = str(k)
        tr.append(r)
        for v in r["events"]:
            rep.count("events")
    if not tr:
        return
    res = tlc.must(tlc.run("ChannelTrace", env={"TRACES": tlc.dump(tr, "ctraces.json")}, workers=4, timeout=400, mem="6g"), "ChannelTrace")
    rep.tlc(res)
    out = {o["id"]: o for o in tlc.prints(res, "RES")}
    if len(out) != len(tr):
        raise RuntimeError("ChannelTrace did not judge every trace")
    rep.traces += len(out)
    for t in tr:
        o = out[t["id"]]
        if o["bad"]:
            it = items[int(t["id"])]
            ev = t["events"]
            e = ev[o["k"] - 1]
            rep.viol(f"{'+'.join(sorted(o['bad']))}:{name(it)}:{e.get('e', '')}{e.get('r', '')}",
                     f"event {o['k']} {json.dumps(e)} after {[' '.join(str(v[x]) for x in ('t', 'e', 'r', 'i', 'k') if x in v) for v in ev[:o['k'] - 1]]}"[:1500],
                     {"item": it, "trace": t})
    if tr:
        rep.sample({"script": [s["op"] + ":" + s["e"] + s["x"] for s in items[int(tr[0]["id"])]["script"]], "events": [v["t"] for v in tr[0]["events"]]})


def replay(obj):
    it = obj["item"]
    it["certs"] = certs.make(os.path.join(zyg.SCRATCH, "certs"))
    return zyg.run_many([it], scene, timeout=120)[0]
