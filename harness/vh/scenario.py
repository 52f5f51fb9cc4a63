"""One debug session of a real playbook process through a real debug adapter."""
from __future__ import annotations
import json, os, signal, time
from . import zyg, runner, program, delay
from .dapclient import Client, Gone, Timeout


def adapter_main(args=()):
    import sys
    from ansibug.__main__ import main
    sys.argv = ["ansibug", "dap", *args]
    return main()


# (a quote or a blank in an include's path is Ansible's own affair)
DIRS = ["pb", "a:1", "\u00fc%41", "p&;(b)", "colon:dir:12", "a:7:b", "c:d"]


def vary(rnd, item, p=0.35):
    """Sometimes runs the playbook in an oddly named directory, sometimes with perturbed schedules."""
    if rnd.random() < 0.3:
        item["dir"] = rnd.choice(DIRS)
    if rnd.random() < p:
        item["delay"] = rnd.random()
    return item


def pipe():
    r, w = os.pipe()
    for fd in (r, w):
        os.set_inheritable(fd, True)
    return r, w


class Session:
    """Owns the adapter process and (in listen mode) the playbook process."""

    def __init__(self, out, prog, opts=None):
        self.out, self.opts = out, opts or {}
        self.root = os.path.join(out, self.opts.get("dir", "pb"))
        os.makedirs(self.root)
        self.prog = prog
        self.files = program.Writer(self.root, prog).write()
        self.trace = os.path.join(out, "trace.jsonl")
        self.sock = os.path.join(out, "s")
        self.pb_pid = self.da_pid = None
        self.pb_status = self.da_status = None
        self.c = None
        self.null = os.open(os.devnull, os.O_RDONLY)

    def start_playbook(self, env=None, extra=()):
        log = os.open(os.path.join(self.out, "pb.log"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        e = {"ANSIBUG_MODE": "listen", "ANSIBUG_DEBUG_ADDR": f"uds://{self.sock}",
             "ANSIBUG_NO_WAIT_FOR_CONFIG_DONE": "true" if self.opts.get("nowait") else "false",
             "ANSIBUG_USE_TLS": "False", "TMPDIR": self.out}
        e.update(env or {})
        slow = self.opts.get("delay")

        def go():
            if slow is not None:
                delay.install(f"{slow}/pb")
            return runner.run_playbook(["-i", os.path.join(self.root, "inv.ini"), os.path.join(self.root, "pb.yml"), *extra],
                                       self.trace, inline=self.opts.get("inline", True), det=self.opts.get("det", True))
        self.pb_pid = zyg.fork_child(go, stdin=self.null, stdout=log, stderr=log, env=e, cwd=self.root)
        os.close(log)

    def start_adapter(self, env=None):
        r1, w1 = pipe()
        r2, w2 = pipe()
        log = os.open(os.path.join(self.out, "da.log"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        slow = self.opts.get("delay")

        def go():
            if slow is not None:
                delay.install(f"{slow}/da")
            return adapter_main(self.opts.get("da_args", ()))
        self.da_pid = zyg.fork_child(go, stdin=r1, stdout=w2, stderr=log, env={"TMPDIR": self.out, **(env or {})}, cwd=self.out)
        for fd in (r1, w2, log):
            os.close(fd)
        self.c = Client(r2, w1)

    def wait_listen(self, timeout=20):
        # The socket file is there before connections are possible: the process
        # says so by its info file and on its output.
        end = time.monotonic() + timeout
        info = os.path.join(self.out, f"ansibug-pid-{self.pb_pid}")
        while time.monotonic() < end:
            if os.path.exists(info) or (os.path.exists(self.sock) and "listener has been configured" in self.read("pb.log")):
                return True
            if self.poll_pb() is not None:
                return False
            time.sleep(0.003)
        return False

    def poll_pb(self):
        if self.pb_status is None and self.pb_pid:
            p, s = os.waitpid(self.pb_pid, os.WNOHANG)
            if p:
                self.pb_status = os.waitstatus_to_exitcode(s)
        return self.pb_status

    def poll_da(self):
        if self.da_status is None and self.da_pid:
            p, s = os.waitpid(self.da_pid, os.WNOHANG)
            if p:
                self.da_status = os.waitstatus_to_exitcode(s)
        return self.da_status

    def wait_exit(self, which, timeout):
        end = time.monotonic() + timeout
        f = self.poll_pb if which == "pb" else self.poll_da
        while f() is None and time.monotonic() < end:
            time.sleep(0.003)
        return f()

    def kill(self):
        for pid, poll in ((self.pb_pid, self.poll_pb), (self.da_pid, self.poll_da)):
            if pid and poll() is None:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass

    def records(self):
        out = []
        if os.path.exists(self.trace):
            with open(self.trace) as f:
                for line in f:
                    try:
                        out.append(json.loads(line))
                    except ValueError:
                        pass
        return out

    def read(self, name):
        p = os.path.join(self.out, name)
        if os.path.exists(p):
            with open(p, errors="replace") as f:
                return f.read()
        return ""


def attach_and_configure(s, setbps, filters, timeout=10, args=None):
    c = s.c
    c.call("initialize", {"adapterID": "ansibug", "clientID": "verif"}, timeout)
    r = c.call("attach", args or {"address": f"uds://{s.sock}", "connectTimeout": 5.0}, timeout)
    if not r.get("success"):
        return r
    end = time.monotonic() + timeout
    while not any(m.get("event") == "initialized" for m in c.inbox):
        if time.monotonic() > end:
            raise Timeout()
        c.poll(end - time.monotonic())
    resps = []
    for sb in setbps:
        resps.append(c.call("setBreakpoints", sb, timeout))
    c.call("setExceptionBreakpoints", {"filters": filters}, timeout)
    c.call("configurationDone", {}, timeout)
    return resps
