"""Listening playbooks can be found, and only legitimate peers get in (C17).

TLC goes through the listeners, sequences of peers and ends of Listen.tla; each is
carried out with a real playbook process, real adapters and other clients.
"""
from __future__ import annotations
import json, os, random, re, signal, socket, ssl, stat, struct, subprocess, time
from . import certs, dapclient, runner, scenario, tlc, zyg

LEVEL = "model_checking"


def cert_dir(d):
    certs.make(d)
    h = os.path.join(d, "dir")
    os.makedirs(h, exist_ok=True)
    r = subprocess.run(["openssl", "x509", "-hash", "-noout", "-in", os.path.join(d, "ca.pem")], capture_output=True, text=True)
    if r.returncode == 0:
        with open(os.path.join(d, "ca.pem"), "rb") as f, open(os.path.join(h, r.stdout.strip() + ".0"), "wb") as g:
            g.write(f.read())
    return d


def server_env(srv, d):
    if not srv["tls"]:
        return {"ANSIBUG_USE_TLS": "false"}
    n = os.path.join(d, srv["crt"])
    e = {"ANSIBUG_USE_TLS": "true", "ANSIBUG_TLS_SERVER_CERTFILE": n + {"pem": ".pem", "split": ".crt", "enc": "-enc.pem", "split-enc": ".crt"}[srv["key"]]}
    if srv["key"].startswith("split"):
        e["ANSIBUG_TLS_SERVER_KEYFILE"] = n + ("-enc.key" if srv["key"] == "split-enc" else ".key")
    if "enc" in srv["key"]:
        e["ANSIBUG_TLS_SERVER_KEY_PASSWORD"] = "secret"
    if srv["ca"] != "none":
        e["ANSIBUG_TLS_CLIENT_CA"] = os.path.join(d, "ca.pem") if srv["ca"] == "ca" else "$VH_CERTS/ca.pem"
    return e


def attach_args(p, s, addr, d, timeout):
    a = {"processId": s.pb_pid if p["k"] == "dap" else 999999} if p["by"] == "pid" else {"address": addr if p["by"] == "addr" else "tcp://127.0.0.2:" + addr.rsplit(":", 1)[1], "useTls": p["tls"]}
    if p["by"] == "pid" and p["tls"]:
        # what is announced is used, whatever else is said
        a.update(useTls=True, address="uds:///nowhere")
    a["connectTimeout"] = timeout
    v = {"default": None, "ignore": "ignore", "ca": os.path.join(d, "ca.pem"), "dir": os.path.join(d, "dir"), "var": "${VH_CERTS}/ca.pem",
         "other": os.path.join(d, "other-ca.pem"), "missing": os.path.join(d, "nothing.pem")}[p["verify"]]
    if v:
        a["tlsVerification"] = v
    c = os.path.join(d, "client")
    if p["crt"] == "pem":
        a["tlsCertificate"] = c + ".pem"
    elif p["crt"] == "split":
        a.update(tlsCertificate=c + ".crt", tlsKey=c + ".key")
    elif p["crt"] == "enc":
        a.update(tlsCertificate=c + "-enc.pem", tlsKeyPassword="secret")
    elif p["crt"] == "nopass":
        a.update(tlsCertificate=c + "-enc.pem", tlsKeyPassword="wrong")
    elif p["crt"] in ("strange", "old"):
        a["tlsCertificate"] = os.path.join(d, p["crt"] + "-client.pem")
    return a


def connect(addr):
    if addr.startswith("uds://"):
        s = socket.socket(socket.AF_UNIX)
        s.connect(addr[6:])
        return s
    h, _, p = addr[6:].rpartition(":")
    h = h.strip("[]")
    return socket.create_connection((h or "localhost", int(p)), timeout=10)


def raw(kind, addr, rnd, tls):
    """A peer that does not get as far as a connection."""
    s = connect(addr)
    s.settimeout(5)
    try:
        if kind == "garbage":
            s.sendall(rnd.choice([b"\x16\x03\x01\xff\xff" + bytes(50), bytes(range(256)) * 4, b"\x00", b"\x15\x03\x03\x00\x02\x02\x28"]))
            rnd.random() < 0.5 and s.recv(100)
        elif kind == "http":
            s.sendall(b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n")
            s.recv(1000)
        elif kind == "hello":
            i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname = False
            c.verify_mode = ssl.CERT_NONE
            w = c.wrap_bio(i, o)
            try:
                w.do_handshake()
            except ssl.SSLWantReadError:
                pass
            b = o.read()
            s.sendall(b[:rnd.choice((1, 5, 6, len(b) // 2, len(b) - 1, len(b)))])
            time.sleep(rnd.random() * 0.05)
        elif kind == "slow":
            time.sleep(0.5)
        elif kind == "nocert":
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname = False
            c.verify_mode = ssl.CERT_NONE
            if rnd.random() < 0.5:
                c.maximum_version = ssl.TLSVersion.TLSv1_2
            w = c.wrap_socket(s, do_handshake_on_connect=False)
            w.do_handshake()
            if rnd.random() < 0.5:
                w.recv(10)
            w.close()
            return
    except OSError:
        pass
    finally:
        if kind == "reset":
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()


class Listener(scenario.Session):
    """A playbook process that listens, without the rest of a session."""

    def __init__(self, out, name, srv, d, tmp, umask, item):
        self.out, self.opts = out, {}
        self.root = os.path.join(out, name)
        os.makedirs(self.root)
        self.book = os.path.join(self.root, item["book"])
        with open(self.book, "w") as f:
            f.write("- hosts: localhost\n  gather_facts: false\n  tasks:\n    - name: one\n      debug: {msg: one}\n" +
                    ("    - fail: {msg: no}\n" if item["end"] == "fail" else "") + "    - debug: {msg: two}\n")
        self.trace = os.path.join(self.root, "trace")
        self.pb_pid = self.da_pid = None
        self.pb_status = self.da_status = None
        self.c = None
        self.null = os.open(os.devnull, os.O_RDONLY)
        self.tmp, self.d = tmp, d
        self.sock = os.path.join(out, name + ".s")
        log = os.open(os.path.join(self.root, "log"), os.O_CREAT | os.O_WRONLY)
        env = {"ANSIBUG_MODE": "listen", "ANSIBUG_DEBUG_ADDR": "uds:" + self.sock if srv["tr"] == "uds" else item["bind"],
               "ANSIBUG_NO_WAIT_FOR_CONFIG_DONE": "true" if item["end"] == "unattended" else "false", "TMPDIR": tmp, "VH_CERTS": d, **server_env(srv, d)}

        def go():
            os.umask(umask)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            return runner.run_playbook(["-i", "localhost,", "-c", "local", self.book], self.trace, inline=True, det=True)
        self.pb_pid = zyg.fork_child(go, stdin=self.null, stdout=log, stderr=log, env=env, cwd=self.root)
        os.close(log)
        self.info = os.path.join(tmp, f"ansibug-pid-{self.pb_pid}")

    def listens(self, timeout=25):
        """(as soon as the file is there it is read)"""
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            try:
                with open(self.info) as f:
                    return f.read()
            except FileNotFoundError:
                pass
            if self.poll_pb() is not None:
                return None
            time.sleep(0.0005)
        return None

    def adapter(self, umask=0o22, env=None):
        r1, w1 = os.pipe2(os.O_CLOEXEC)
        r2, w2 = os.pipe2(os.O_CLOEXEC)
        log = os.open(os.path.join(self.root, "da.log"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)

        def go():
            os.umask(umask)
            return scenario.adapter_main(())
        self.da_status = None
        self.da_pid = zyg.fork_child(go, stdin=r1, stdout=w2, stderr=log, env={"TMPDIR": self.tmp, "VH_CERTS": self.d, **(env or {})}, cwd=self.out)
        for fd in (r1, w2, log):
            os.close(fd)
        self.c = dapclient.Client(r2, w1)

    def leave(self):
        for fd in (self.c.w, self.c.r):
            try:
                os.close(fd)
            except OSError:
                pass
        if self.wait_exit("da", 10) is None:
            os.kill(self.da_pid, signal.SIGKILL)
            self.wait_exit("da", 5)
            return False
        return True


def scene(item, out):
    rnd = random.Random(item["seed"])
    d = item["certs"]
    tmp = os.path.join(out, item["tmp"])
    os.makedirs(tmp)
    srv = item["srv"]
    bad = []
    s = Listener(out, "one", srv, d, tmp, item["umask"], item)
    twin = None
    if item["twin"]:
        twin = Listener(out, "two", {"tr": "uds" if srv["tr"] == "tcp" else "tcp", "tls": False}, d, tmp, item["umask"], {**item, "end": "finish"})
    said = []
    try:
        text = s.listens()
        if text is None:
            if item["end"] == "unattended" and s.poll_pb() == 0:
                # (it may be over before it is seen)
                if os.path.exists(s.info):
                    bad.append("the file is left behind")
                return {"bad": bad, "quick": True}
            return {"bad": [f"no listener: exit {s.poll_pb()} {s.read('one/log')[-600:]}"]}
        try:
            info = json.loads(text)
        except ValueError:
            return {"bad": [f"the file is there before it is complete: {text[:80]!r}"]}
        addr = info.get("address", "")
        if info.get("use_tls") is not srv["tls"]:
            bad.append(f"the file says use_tls {info.get('use_tls')!r}")
        if info.get("pid") != s.pb_pid:
            bad.append(f"the file says pid {info.get('pid')!r}")
        if os.path.basename(str(info.get("playbook_file"))) != item["book"]:
            bad.append(f"the file says playbook {info.get('playbook_file')!r}")
        if srv["tr"] == "uds":
            if addr != "uds://" + s.sock:
                bad.append(f"the file says {addr!r}")
            try:
                m = os.stat(s.sock).st_mode
                if m & 0o77:
                    bad.append(f"the socket has mode {stat.S_IMODE(m):o}")
            except OSError as e:
                bad.append(f"the socket is not there: {e}")
        if twin and twin.listens() is None:
            bad.append("no second listener")
        # the address peers use that do not look it up: by name if the certificate says so
        port = addr.rsplit(":", 1)[-1]
        at = addr if srv["tr"] == "uds" or "::1" in addr else f"tcp://localhost:{port}"
        inn = False
        for k, h in enumerate(item["past"]):
            p = h["p"]
            if p["k"] in ("dap", "nopid"):
                s.adapter()
                c = s.c
                c.call("initialize", {"adapterID": "ansibug"}, 20)
                try:
                    r = c.call("attach", attach_args(p, s, at, d, 20.0 if h["in"] else 2.0), 40)
                except (dapclient.Gone, dapclient.Timeout) as e:
                    bad.append(f"peer {k + 1} {p}: no answer ({type(e).__name__}) {s.read('one/da.log')[-300:]}")
                    break
                said.append([p, r.get("success"), r.get("message")])
                if bool(r.get("success")) != h["in"]:
                    bad.append(f"peer {k + 1} {json.dumps(p)}: required {'in' if h['in'] else 'turned away'}, got {r.get('success')} {r.get('message')} {str(r.get('body'))[:200]}")
                    break
                inn = h["in"]
                if not inn and not s.leave():
                    bad.append("the adapter does not end")
            else:
                raw(p["k"], at, random.Random(f"{item['seed']}/{p['n']}"), srv["tls"])
                said.append([p["k"]])
            if not inn:
                if s.poll_pb() is not None:
                    bad.append(f"after peer {k + 1} {json.dumps(p)} the listener has ended ({s.poll_pb()}) {s.read('one/log')[-300:]}")
                    break
                if not os.path.exists(s.info):
                    bad.append(f"after peer {k + 1} {json.dumps(p)} the file is gone")
                    break
        if not bad:
            end_session(item, s, bad, inn)
        if twin:
            if twin.poll_pb() is not None or not os.path.exists(twin.info):
                bad.append("the other listener is gone as well")
            os.kill(twin.pb_pid, signal.SIGINT)
            if twin.wait_exit("pb", 15) is None:
                bad.append("the other listener does not end")
            elif os.path.exists(twin.info):
                bad.append("the other listener leaves its file behind")
        left = [f for f in os.listdir(tmp) if "ansibug" in f]
        if not bad and left:
            bad.append(f"left behind: {left}")
        if not bad and os.path.exists(s.sock):
            bad.append("the socket is left behind")
        return {"bad": bad, "said": said}
    finally:
        s.kill()
        if twin:
            twin.kill()


def end_session(item, s, bad, inn):
    how = item["end"]
    c = s.c
    want = {"finish": 0, "fail": 2, "detach": 0, "drop": 0, "unattended": 0}.get(how)
    if inn:
        end = time.monotonic() + 20
        while not any(m.get("event") == "initialized" for m in c.inbox):
            c.poll(end - time.monotonic())
            if time.monotonic() > end:
                bad.append("no initialized event")
                return
        if how in ("finish", "fail"):
            c.call("setExceptionBreakpoints", {"filters": []}, 20)
            c.call("configurationDone", {}, 20)
        elif how == "detach":
            c.call("disconnect", {"terminateDebuggee": False}, 20)
        elif how == "terminate":
            c.call("setExceptionBreakpoints", {"filters": []}, 20)
            c.call("configurationDone", {}, 20)
            try:
                c.call("terminate", {}, 20)
            except (dapclient.Gone, dapclient.Timeout):
                pass
        elif how == "drop":
            os.kill(s.da_pid, signal.SIGKILL)
    elif how == "interrupt":
        os.kill(s.pb_pid, signal.SIGINT)
    rc = s.wait_exit("pb", 30)
    if rc is None:
        bad.append(f"the playbook does not end ({how}) {s.read('one/log')[-300:]}")
    elif want is not None and rc != want:
        bad.append(f"the playbook ends with {rc} ({how}) {s.read('one/log')[-300:]}")
    if rc is not None and os.path.exists(s.info):
        bad.append(f"the file is left behind ({how})")
    if inn and how != "drop":
        s.leave()


def launch_scene(item, out):
    """The sockets and the script an adapter makes for a launch."""
    d = item["certs"]
    tmp = os.path.join(out, item["tmp"])
    os.makedirs(tmp)
    s = Listener.__new__(Listener)
    s.out = s.root = out
    s.tmp, s.d, s.pb_pid, s.pb_status = tmp, d, None, None
    s.adapter(umask=item["umask"])
    bad = []
    try:
        c = s.c
        c.call("initialize", {"adapterID": "ansibug", "supportsRunInTerminalRequest": True}, 20)
        c.request("launch", {"playbook": "x.yml"})
        end = time.monotonic() + 20
        q = None
        while not q and time.monotonic() < end:
            c.poll(0.2)
            q = next((m for m in c.inbox if m.get("command") == "runInTerminal"), None)
        if not q:
            return {"bad": [f"no runInTerminal request {s.read('da.log')[-300:]}"]}
        socks = [f for f in os.listdir(tmp) if stat.S_ISSOCK(os.stat(os.path.join(tmp, f)).st_mode)]
        if not socks:
            bad.append("no socket in the temporary directory")
        for f in os.listdir(tmp):
            m = os.stat(os.path.join(tmp, f)).st_mode
            if m & 0o77:
                bad.append(f"{'socket' if stat.S_ISSOCK(m) else 'file'} with mode {stat.S_IMODE(m):o} for umask {item['umask']:o}")
        os.close(c.w)
        if s.wait_exit("da", 15) is None:
            bad.append("the adapter does not end")
        else:
            left = [f for f in os.listdir(tmp) if f in socks]
            if left:
                bad.append("sockets left behind")
        return {"bad": sorted(set(bad))}
    finally:
        s.kill()


def features(b):
    sv = b["srv"]
    base = (sv["tr"], sv["tls"], sv["crt"], sv["ca"])
    f = {("srv", json.dumps(sv)), (base, b["end"])}
    prev = ""
    for h in b["past"]:
        p = h["p"]
        n = json.dumps(p)
        f |= {("peer", n, sv["tls"]), (base, p["k"], p.get("verify"), h["in"]), (sv["ca"], p["k"], p.get("crt"), h["in"]), (prev, p["k"]), (sv["tls"], sv["ca"], prev, p["k"])}
        prev = p["k"] + p.get("verify", "")
    f.add(("last", prev, b["end"], sv["tls"]))
    return f


def select(rnd, beh, n):
    rnd.shuffle(beh)
    seen, out = set(), []
    todo = [(features(b), b) for b in beh]
    while todo and len(out) < n:
        best = max(range(min(80, len(todo))), key=lambda k: len(todo[k][0] - seen) + 0.01 * sum(h["in"] for h in todo[k][1]["past"]))
        f, b = todo.pop(best)
        seen |= f
        out.append(b)
    return out


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/{prop}")
    th = tier == "thorough"
    rep.tlc(tlc.must(tlc.run("Listen", constants={"MaxPeers": 1}, workers=6, timeout=600, mem="8g"), "Listen"))
    res = tlc.must(tlc.run("Listen", "ListenSim.cfg", extra=("-simulate", f"num={30000 if th else 5000}", "-depth", "8", "-seed", str(int(seed) + 7)), workers=4, timeout=300), "ListenSim")
    rep.transitions += res["generated"]
    beh = [json.loads(b) for b in sorted({json.dumps(b) for b in tlc.prints(res, "BEH")})]
    rep.count("behaviours", len(beh))
    # most have to get somebody in
    some = [b for b in beh if b["end"] not in ("interrupt", "unattended")]
    none = [b for b in beh if b["end"] in ("interrupt", "unattended")]
    n = 3600 if th else 240
    d = cert_dir(os.path.join(zyg.SCRATCH, "certs"))
    items = []
    for k, b in enumerate(select(rnd, [b for b in some if b["srv"]["tls"]], n * 8 // 15) + select(rnd, [b for b in some if not b["srv"]["tls"]], n * 2 // 15) +
                          select(rnd, [b for b in none if b["past"]], n * 4 // 15) + select(rnd, [b for b in none if not b["past"]], n // 15)):
        items.append({**b, "certs": d, "seed": f"{seed}/{prop}/{k}", "umask": rnd.choice((0, 0o22, 0o77, 0o2)), "twin": rnd.random() < 0.15,
                      "tmp": rnd.choice(("t", "t m", "t'm", "\u00fc")), "book": rnd.choice(("pb.yml", "a b.yml", "\u00fc.yml", 'q"x.yml')),
                      "bind": rnd.choice(("tcp://", "tcp://:0") if any(h["p"].get("by") == "alias" for h in b["past"]) else ("tcp://", "tcp://[::1]:0", "tcp://127.0.0.1:0", "tcp://localhost:0", "tcp://:0"))})
    launches = [{"kind": "launch", "certs": d, "umask": u, "tmp": t} for u in (0, 0o2, 0o22, 0o77) for t in ("t", "t m")]
    results = zyg.run_many(launches, launch_scene, timeout=60)
    results += zyg.run_many(items, scene, timeout=150, budget=560 if th else 80)
    for it, r in zip(launches + items, results):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        nm = name(it)
        if "harness_error" in r:
            rep.broken(r, nm, {"item": it})
            continue
        rep.traces += 1
        rep.count("peers", len(r.get("said", ())))
        for b in r["bad"]:
            rep.viol(f"{re.sub('[^a-z ]+', ' ', b.split(':')[0])[:50].strip()}:{nm}", b[:900], {"item": it})
    rep.sample({"behaviour": {k: items[0][k] for k in ("srv", "past", "end")}})


def name(it):
    if it.get("kind") == "launch":
        return "launch"
    s = it["srv"]
    return f"{s['tr']}{'+tls' if s['tls'] else ''}{'+ca' if s['ca'] != 'none' else ''}:{it['end']}"


def replay(obj):
    it = obj["item"]
    it["certs"] = cert_dir(os.path.join(zyg.SCRATCH, "certs"))
    return zyg.run_many([it], launch_scene if it.get("kind") == "launch" else scene, timeout=150)[0]
