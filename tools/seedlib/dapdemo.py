"""Small debug adapter client for the demonstrations: runs a playbook in a scratch directory and debugs it."""
import json, os, select, shutil, subprocess, sys, tempfile, time

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Demo:
    def __init__(self, files, main="pb.yml", inv="h1 ansible_connection=local\n", args=(), env=None, wait=True, listen_args=(), adapter=True):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        self.env = dict(os.environ, TMPDIR=self.dir, HOME=self.dir, ANSIBLE_LOCAL_TEMP=self.dir + "/lt", ANSIBLE_NOCOLOR="1",
                        ANSIBLE_FORKS="5", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", **(env or {}))
        self.main = main
        for name, text in dict(files, **{"inv.ini": inv}).items():
            p = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)
        self.seq, self.buf, self.msgs, self.pos = 0, b"", [], 0
        self.pb = None
        self.log = open(self.dir + "/pb.log", "w")
        self.args, self.listen_args, self.wait = list(args), list(listen_args), wait
        if adapter:
            self.adapter()

    def path(self, n):
        return os.path.join(self.dir, n)

    def adapter(self, *extra):
        self.da = subprocess.Popen([PY, "-m", "ansibug", "dap", *extra], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.dir + "/da.log", "w"),
                                   env=self.env, cwd=self.dir)
        return self

    def listen(self):
        self.pb = subprocess.Popen([PY, "-m", "ansibug", "listen", "--addr", getattr(self, "addr", None) or "uds://" + self.path("s"), *self.listen_args, *([] if self.wait else ["--no-wait"]),
                                    self.main, "-i", "inv.ini", *self.args], stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, env=self.env, cwd=self.dir)
        end = time.time() + 60
        while not os.path.exists(self.path(f"ansibug-pid-{self.pb.pid}")):
            if not self.wait and self.pb.poll() is not None:
                break       # it did not wait for anybody and is done already
            assert time.time() < end and self.pb.poll() is None, "not listening: " + self.output()
            time.sleep(0.05)
        return self

    def output(self):
        self.log.flush()
        return open(self.dir + "/pb.log").read()

    def send(self, command, **arguments):
        self.seq += 1
        d = json.dumps({"seq": self.seq, "type": "request", "command": command, "arguments": arguments}).encode()
        self.da.stdin.write(b"Content-Length: %d\r\n\r\n" % len(d) + d)
        self.da.stdin.flush()
        return self.seq

    def recv(self, timeout):
        """Read one more message into self.msgs; False on timeout or end."""
        end = time.time() + timeout
        while True:
            i = self.buf.find(b"\r\n\r\n")
            if i >= 0:
                n = int(self.buf[:i].split(b"Content-Length: ")[1].split(b"\r\n")[0])
                if len(self.buf) >= i + 4 + n:
                    self.msgs.append(json.loads(self.buf[i + 4:i + 4 + n]))
                    self.buf = self.buf[i + 4 + n:]
                    return True
            left = end - time.time()
            if left <= 0 or not select.select([self.da.stdout], [], [], left)[0]:
                return False
            d = os.read(self.da.stdout.fileno(), 65536)
            if not d:
                return False
            self.buf += d

    def find(self, pred, timeout=30, start=0):
        end = time.time() + timeout
        k = start
        while True:
            while k < len(self.msgs):
                if pred(self.msgs[k]):
                    return k
                k += 1
            if not self.recv(max(0, end - time.time())):
                if k >= len(self.msgs):
                    return None

    def call(self, command, timeout=30, **arguments):
        s = self.send(command, **arguments)
        k = self.find(lambda m: m["type"] == "response" and m["request_seq"] == s, timeout)
        assert k is not None, f"no response to {command}: {self.msgs[-5:]} {self.output()[-2000:]}"
        return self.msgs[k]

    def event(self, name, timeout=30):
        """Next event of that name that was not yet returned."""
        k = self.find(lambda m: m["type"] == "event" and m["event"] == name, timeout, self.pos)
        if k is None:
            return None
        self.pos = k + 1
        return self.msgs[k].get("body", {})

    def attach(self, breakpoints=(), filters=(), done=True, **args):
        """breakpoints: [(file name, [line or {"line":..}])]"""
        self.call("initialize", adapterID="ansibug")
        r = self.call("attach", **(args or {"processId": self.pb.pid}))
        assert r["success"], r
        assert self.event("initialized") is not None
        self.bps = [self.setbps(f, ls) for f, ls in breakpoints]
        self.call("setExceptionBreakpoints", filters=list(filters))
        if done:
            self.call("configurationDone")
        return self

    def setbps(self, name, lines, **kw):
        r = self.call("setBreakpoints", source={"path": self.path(name)}, breakpoints=[x if isinstance(x, dict) else {"line": x} for x in lines], **kw)
        return r["body"]["breakpoints"]

    def stopped(self, timeout=30):
        return self.event("stopped", timeout)

    def top(self, tid):
        f = self.call("stackTrace", threadId=tid)["body"]["stackFrames"]
        return f

    def finish(self, timeout=60):
        """Wait for the playbook process; None if it does not end."""
        end = time.time() + timeout
        while time.time() < end:
            if self.pb.poll() is not None:
                return self.pb.returncode
            self.recv(0.05) or time.sleep(0.02)
        return None

    def close(self):
        for p in (self.pb, getattr(self, "da", None)):
            if p and p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def main(f):
    """Run f(); exit 0 if it returns, 1 if an assertion in it fails."""
    try:
        f()
    except AssertionError as e:
        print("FAILED:", e)
        sys.stdout.flush()
        os._exit(1)
    print("ok")
    os._exit(0)
