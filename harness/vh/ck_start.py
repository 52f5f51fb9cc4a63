"""C19: what a debug run is started with.

 1. TLC checks the start step by step over all small configurations (StartMC)
    and says for random ones what ansible-playbook has to be given;
 2. these are started for real (listen, connect, launch through an adapter
    whose client runs the script), up to the moment the ansible-playbook process
    is there: a hook of the scratch interpreter records its arguments,
    directory, environment, and what Ansible and the debugger's plugin make of
    them, and ends it.
"""
from __future__ import annotations
import json, os, random, shutil, subprocess, time
from . import zyg, tlc
from .dapclient import Client, Gone, Timeout

PRELOAD = True

RECORDER = r'''
import os, sys
def _vh():
    a = sys.orig_argv[1:]
    rest = None
    for k in range(len(a)):
        if a[k] == "-m" and a[k + 1:k + 3] == ["ansible", "playbook"]:
            rest = a[k + 3:]
        elif os.path.basename(a[k]) == "ansible-playbook" and rest is None:
            rest = a[k + 1:]
    if rest is None:
        return
    import json
    r = {"argv": rest, "cwd": os.getcwd(), "env": dict(os.environ), "path": list(sys.path)}
    try:
        from ansible import constants as C
        r["callbacks"] = list(C.CALLBACKS_ENABLED)
        r["collections"] = list(C.COLLECTIONS_PATHS)
        r["strategy"] = C.DEFAULT_STRATEGY
        from ansible.plugins.loader import init_plugin_loader, callback_loader
        init_plugin_loader()
        p = callback_loader.get("ansibug.dap.debug")
        p.set_options()
        r["opts"] = {k: p.get_option(k) for k in ("mode", "debug_addr", "tls_server_certfile", "tls_server_keyfile", "tls_server_key_password",
                                                  "tls_client_ca", "use_tls", "no_wait_for_config_done", "log_file", "log_level")}
    except BaseException as e:
        import traceback
        r["error"] = traceback.format_exc()[-1500:]
    d = %(rec)r
    with open(os.path.join(d, "r%%d.tmp" %% os.getpid()), "w") as f:
        json.dump(r, f)
    os.rename(f.name, os.path.join(d, "r%%d.json" %% os.getpid()))
    os._exit(%(rc)d)
_vh()
'''

VALUES = ["x", "a b", " lead", "tail ", "", "it's", 'say "hi"', "$HOME", "${PATH}", "`id`", "$(id)", "a;b", "a&b|c", "*", "?[a]", "back\\slash", "\u00fc\u20ac",
          "two\nlines", "-x", "--", "--addr", "--no-wait", "--log-file=/nowhere", "-h", "@file", "!bang", "#hash", "~", "%s", "{{ x }}", "=", "tab\there", "\\n", "<a>", "(", "a=b c"]
NAMES = ["x", "y z", "coll.d", "UML-p", "it's", 'q"q', "a,b", "p&q", "(r)", "semi"]
CALLBACKS = ["profile_tasks", "ansible.posix.timer", "my.own.cb", "ansible.posix.profile_roles"]
ODD = ["plain", "with blank", "it's", 'q"uote', "a$b", "UML dir", "a;b&c", "(x)", "star*"]
PASS = ["secret", "with blank", "q'uo\"te", "$HOME", "None", "true", "12", "{{ x }}", "\u00fcber", "a,b", "[1, 2]", "-dash", "#c", "back\\slash"]
ADDRS = ["uds://", "tcp://127.0.0.1:0", "tcp://[::1]:1234", "uds:///tmp/no such dir/s", "uds:///tmp/\u00fc's", "tcp://host.example:65535", "tcp://:0"]


def some(*v):
    return {"set": True, "v": list(v)}


NONE = {"set": False, "v": []}


def d(at, n):
    return {"at": at, "n": n}


def case(rnd):
    def dirs(kinds, n=None):
        return some(*[d(rnd.choice(kinds), rnd.choice(NAMES)) for _ in range(n or rnd.choice([1, 1, 2, 3]))])

    def cbs():
        return some(*rnd.sample(CALLBACKS, rnd.choice([1, 1, 2, 3])))

    def file():
        if rnd.random() < 0.45:
            return {"there": False, "callbacks": NONE, "collections": NONE}
        return {"there": True, "callbacks": cbs() if rnd.random() < 0.6 else NONE, "collections": dirs(["rel", "abs", "home"]) if rnd.random() < 0.6 else NONE}
    mode = rnd.choice(["listen", "listen", "connect", "launch", "launch"])
    w = {"env": {"callbacks": cbs() if rnd.random() < 0.4 else NONE, "collections": dirs(["rel", "abs", "home"]) if rnd.random() < 0.4 else NONE,
                 "python": dirs(["abs"]) if rnd.random() < 0.5 else NONE},
         "files": {k: file() for k in ("explicit", "cwd", "home")}}
    listen = mode == "listen"

    def maybe(p, v):
        return v() if rnd.random() < p else NONE

    def path():
        return some(d(rnd.choice(["rel", "abs", "home"]), rnd.choice(NAMES)))
    val = {}        # token -> real value

    def tok(pool, kind):
        t = f"{kind}{len(val)}"
        val[t] = rnd.choice(pool)
        return t
    direct = mode != "launch"
    o = {"addr": some(tok(ADDRS, "A")) if mode == "connect" or (listen and rnd.random() < 0.6) else NONE,
         "nowait": direct and rnd.random() < 0.4, "tls": listen and rnd.random() < 0.5,
         "cert": maybe(0.5, path) if listen else NONE, "key": maybe(0.4, path) if listen else NONE, "ca": maybe(0.4, path) if listen else NONE,
         "pass": maybe(0.4, lambda: some(tok(PASS, "P"))) if listen else NONE, "passenv": maybe(0.3, lambda: some(tok(PASS, "P"))),
         "logfile": maybe(0.5, path), "loglevel": maybe(0.6, lambda: some(rnd.choice(["info", "debug", "warning", "error"])))}
    first = rnd.choice(["pb.yml", "dir with blank/pb's $x.yml", "\u00fc.yml", "*.yml"])
    val["F"] = first
    args = ["F"] + [tok(VALUES, "V") for _ in range(rnd.choice([0, 1, 3, 5]))]
    base, asked = {}, {}
    for k in range(rnd.choice([1, 2, 4])):
        base[f"VH_{k}"] = tok(VALUES, "V")
    base["Q_own"] = tok(["q"], "V")
    noise = rnd.random()
    for name, v, p in (("ANSIBLE_VERBOSITY", "3", 0.2), ("ANSIBLE_DEBUG", "1", 0.15), ("ANSIBLE_FORCE_COLOR", "1", 0.15), ("ANSIBLE_STRATEGY", "free", 0.3),
                       ("ANSIBLE_STDOUT_CALLBACK", "json", 0.2), ("ANSIBLE_LOG_PATH", "%OUT/l.log", 0.15), ("ANSIBLE_CONFIG_IGNORED", "x y", 0.2),
                       ("PYTHONUNBUFFERED", "1", 0.2), ("TMPDIR", "%OUT/tmp2", 0.2)):
        if noise < 0.7 and rnd.random() < p:
            t = f"N{len(val)}"
            val[t] = v
            base[name] = t
    if mode == "launch":
        for k in range(rnd.choice([0, 1, 3])):
            asked[f"VH_{rnd.choice([0, 1, 7, 8, 9])}"] = some(tok(VALUES, "V")) if rnd.random() < 0.75 else NONE
    return {"mode": mode, "w": w, "o": o, "args": args, "base": base, "asked": asked or {"VH_none": NONE}}, val, {
        "cwd": rnd.choice(ODD), "venv": rnd.choice(ODD), "temp": rnd.choice([None, *ODD]), "tmp": rnd.choice(ODD[:4]), "eq": rnd.random() < 0.5,
        "envby": {k: rnd.choice(["base", "asked", "asked-over"]) for k in ("callbacks", "collections", "python")}, "verb": rnd.random() < 0.2, "galaxy": rnd.random() < 0.2,
        "answer": rnd.choice(["before", "after", "quick"]), "rc": rnd.choice([0, 0, 1, 4]), "hidden": rnd.random() < 0.5, "pager": rnd.random() < 0.1}


def session(item, out):
    c, val, how = item["case"], item["val"], item["how"]
    R = Real(c, val, how, out)
    r = R.go()
    r["real"] = {"cwd": R.cwd, "home": R.home, "cfg": R.cfg, "abs": R.abs, "out": out}
    return r


def uni(s):
    return s.replace("UML", "\u00fc")


class Real:
    def __init__(self, c, val, how, out):
        self.c, self.val, self.how, self.out = c, val, how, out
        mk = lambda *p: (os.makedirs(os.path.join(out, *p), exist_ok=True), os.path.join(out, *p))[1]
        self.cwd = mk("w", uni(how["cwd"]))
        self.home = mk("home")
        self.cfg = mk("c", "conf dir")
        self.abs = mk("abs")
        self.rec = mk("rec")
        self.tmp = mk("t", uni(how["tmp"]))
        mk("tmp2")
        self.temp = mk("td", uni(how["temp"])) if how["temp"] else None
        v = mk("v", uni(how["venv"]))
        sp = mk("v", uni(how["venv"]), "lib", "python3.12", "site-packages")
        os.makedirs(v + "/bin")
        base = os.path.realpath("/opt/venv/bin/python")
        self.python = v + "/bin/python"
        os.symlink(base, self.python)
        with open(v + "/pyvenv.cfg", "w") as f:
            f.write(f"home = {os.path.dirname(base)}\ninclude-system-site-packages = false\n")
        with open(sp + "/vhrec.py", "w") as f:
            f.write(RECORDER % {"rec": self.rec, "rc": how["rc"]})
        with open(sp + "/x.pth", "w") as f:
            f.write(f"{zyg.REPO}/src\n/opt/venv/lib/python3.12/site-packages\nimport vhrec\n")
        for place, name, at in (("explicit", os.path.join(self.cfg, "my ansible.cfg"), self.cfg), ("cwd", os.path.join(self.cwd, "ansible.cfg"), self.cwd),
                                ("home", os.path.join(self.home, ".ansible.cfg"), self.home)):
            f = c["w"]["files"][place]
            if f["there"]:
                with open(name, "w") as fd:
                    fd.write("[defaults]\n" + ("verbosity = 2\n" if how["verb"] else ""))
                    if f["callbacks"]["set"]:
                        fd.write("callbacks_enabled = " + ", ".join(f["callbacks"]["v"]) + "\n")
                    if f["collections"]["set"]:
                        fd.write("collections_path = " + ":".join(self.written(x) for x in f["collections"]["v"]) + "\n")
                    if how["galaxy"]:
                        fd.write("[galaxy]\nserver_list = one\n[galaxy_server.one]\nurl = https://localhost:1/\n")
        self.env = {"PATH": "/usr/bin:/bin", "HOME": self.home, "LC_ALL": "C.UTF-8", "TMPDIR": self.tmp, "PYTHONDONTWRITEBYTECODE": "1"}
        self.known = {k: self.value(t) for k, t in c["base"].items()}
        self.env.update(self.known)
        if c["o"]["passenv"]["set"]:
            self.env["ANSIBUG_TLS_KEY_PASS"] = val[c["o"]["passenv"]["v"][0]]
        if c["w"]["files"]["explicit"]["there"]:
            self.env["ANSIBLE_CONFIG"] = os.path.join(self.cfg, "my ansible.cfg")
        self.asked = {k: (self.value(v["v"][0]) if v["set"] else None) for k, v in c["asked"].items() if k != "VH_none"}
        w = c["w"]["env"]
        for key, name, f in (("callbacks", "ANSIBLE_CALLBACKS_ENABLED", lambda v: ",".join(v)), ("collections", "ANSIBLE_COLLECTIONS_PATH", lambda v: ":".join(self.written(x) for x in v)),
                             ("python", "PYTHONPATH", lambda v: ":".join(self.resolved(x, "cwd") for x in v))):
            by = how["envby"][key] if c["mode"] == "launch" else "base"
            if by == "asked-over":
                self.env[name] = "decoy"
            if w[key]["set"]:
                (self.env if by == "base" else self.asked)[name] = f(w[key]["v"])
            elif by == "asked-over":
                self.asked[name] = None

    def value(self, t):
        return self.val[t].replace("%OUT", self.out)

    def written(self, x):
        n = uni(x["n"])
        return n if x["at"] == "rel" else "~/" + n if x["at"] == "home" else os.path.join(self.abs, n)

    def resolved(self, x, place=None):
        if x["at"] == "abs" and x["n"].startswith("/"):
            return x["n"]
        at = x["at"] if x["at"] != "rel" else place
        return os.path.join({"cwd": self.cwd, "explicit": self.cfg, "home": self.home, "abs": self.abs}[at], uni(x["n"]))

    def options(self):
        o, L = self.c["o"], []

        def add(name, v):
            if self.how["eq"] or v.startswith("-"):
                L.append(f"{name}={v}")
            else:
                L.extend([name, v])
        for name, k in (("--addr", "addr"), ("--tls-key-pass", "pass"), ("--log-level", "loglevel")):
            if o[k]["set"]:
                add(name, self.val.get(o[k]["v"][0], o[k]["v"][0]))
        for name, k in (("--tls-cert", "cert"), ("--tls-key", "key"), ("--tls-client-ca", "ca"), ("--log-file", "logfile")):
            if o[k]["set"]:
                add(name, self.written(o[k]["v"][0]))
        if o["nowait"]:
            L.append("--no-wait")
        if o["tls"]:
            L.append("--wrap-tls")
        return L

    def records(self):
        L = []
        for f in sorted(os.listdir(self.rec)):
            if f.endswith(".json"):
                with open(os.path.join(self.rec, f)) as fd:
                    L.append(json.load(fd))
        return L

    def go(self):
        args = [self.val[t] for t in self.c["args"]]
        res = {"log": ""}
        T = 60
        try:
            if self.c["mode"] != "launch":
                p = subprocess.run([self.python, "-m", "ansibug", self.c["mode"], *self.options(), *args], cwd=self.cwd, env=self.env,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=T)
                res["log"] = p.stdout.decode(errors="replace")[-1500:]
            else:
                self.launch(args, res, T)
        except (subprocess.TimeoutExpired, Timeout) as e:
            res["hang"] = repr(e)[-300:]
        except Gone:
            res["hang"] = "the adapter is gone " + res["log"]
        res["records"] = self.records()
        return res

    def launch(self, args, res, T):
        def left():
            return sorted(f for dd in {self.tmp, self.temp or self.tmp, os.path.join(self.out, "tmp2")} for f in os.listdir(dd))
        err = open(os.path.join(self.out, "da.log"), "wb")
        # the terminal's own environment is the client's business
        da = subprocess.Popen([self.python, "-m", "ansibug", "dap", *(["--temp-dir", self.temp] if self.temp else [])], cwd=self.out,
                              env={**self.env}, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err)
        proc = None
        try:
            c = Client(da.stdout.fileno(), da.stdin.fileno())
            c.call("initialize", {"adapterID": "x"}, T)
            o = self.c["o"]
            a = {"playbook": args[0], "args": args[1:], "cwd": self.cwd, "env": self.asked, "connectTimeout": 40.0}
            if not self.asked and self.how["hidden"]:
                del a["env"]
            if o["logfile"]["set"]:
                a["logFile"] = self.written(o["logfile"]["v"][0])
            if o["loglevel"]["set"]:
                a["logLevel"] = o["loglevel"]["v"][0]
            c.request("launch", a)
            while True:
                m = c.next(T)
                if m.get("command") == "runInTerminal" or m.get("type") == "response":
                    break
            if m.get("type") == "response":
                res["log"] = f"launch failed: {m}"
                return
            ra = m["arguments"]
            res["asked"] = {"args": ra["args"][1:], "env": ra.get("env") or {}, "cwd": ra["cwd"]}
            env = dict(self.env)
            for k, v in (ra.get("env") or {}).items():
                if v is None:
                    env.pop(k, None)
                else:
                    env[k] = v
            log = open(os.path.join(self.out, "pb.log"), "wb")
            if self.how["answer"] == "quick":
                c.respond(m, {})
                time.sleep(0.02)
            proc = subprocess.Popen(ra["args"], cwd=ra["cwd"], env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log)
            if self.how["answer"] == "after":
                proc.wait(T)
            if self.how["answer"] != "quick":
                c.respond(m, {"processId": proc.pid})
            proc.wait(T)
            end = time.monotonic() + T
            # (nothing else says that the launch came to nothing)
            while not any(x.get("event") == "terminated" for x in c.inbox) and time.monotonic() < end:
                c.poll(end - time.monotonic())
            c.request("disconnect", {})
            da.wait(T)
            res["left"] = left()
            with open(os.path.join(self.out, "pb.log"), errors="replace") as f:
                res["log"] = f.read()[-1500:]
        finally:
            for p in (da, proc):
                if p is not None and p.poll() is None:
                    p.kill()


OWNENV = {"ANSIBLE_CALLBACKS_ENABLED", "ANSIBLE_COLLECTIONS_PATH", "ANSIBLE_COLLECTIONS_PATHS", "ANSIBLE_STRATEGY", "PYTHONPATH"}


def compare(item, exp, r):
    c, val, how = item["case"], item["val"], item["how"]
    if r.get("hang"):
        return "no-start", str(r["hang"])
    if len(r["records"]) != 1:
        return ("no-start" if not r["records"] else "started-twice"), f"{len(r['records'])} processes: {r['log'][-700:]}"
    g = r["records"][0]
    if g.get("error"):
        return "plugins-not-usable", g["error"]
    P = r["real"]

    def value(t):
        return val[t].replace("%OUT", P["out"])

    def path(x):
        if x["n"].startswith("/"):
            return x["n"]
        return os.path.join({"cwd": P["cwd"], "explicit": P["cfg"], "home": P["home"], "abs": P["abs"]}[x["at"]], uni(x["n"]))
    want = [value(t) for t in exp["argv"]]
    if g["argv"] != want:
        return "arguments", f"required {want}, got {g['argv']}"
    if g["cwd"] != P["cwd"]:
        return "directory", f"required {P['cwd']}, got {g['cwd']}"
    for k, t in exp["env"].items():
        if k not in OWNENV and g["env"].get(k) != value(t):
            return "environment", f"{k}: required {value(t)!r}, got {g['env'].get(k)!r}"
    for k, v in c["asked"].items():
        if not v["set"] and k in g["env"]:
            return "environment", f"{k} is to be unset, got {g['env'][k]!r}"
    extra = [k for k in g["env"] if k not in exp["env"] and k not in OWNENV and not k.startswith("ANSIBUG_") and
             k not in ("PATH", "HOME", "LC_ALL", "LC_CTYPE", "TMPDIR", "PYTHONDONTWRITEBYTECODE", "ANSIBLE_CONFIG", "PWD", "OLDPWD", "SHLVL", "_")]
    if extra:
        return "environment-added", str(extra)
    e = exp["eff"]
    if g["callbacks"] != ["ansibug.dap.debug", *e["callbacks"][1:]]:
        return "callbacks", f"required the debugger's then {e['callbacks'][1:]}, got {g['callbacks']}"
    if g["strategy"] != "ansibug.dap.debug":
        return "strategy", g["strategy"]
    want = [path(x) for x in e["collections"][1:]]
    if not g["collections"] or not os.path.isdir(os.path.join(g["collections"][0], "ansible_collections", "ansibug", "dap")) or g["collections"][1:] != want:
        return "collections", f"required the debugger's then {want}, got {g['collections']}"
    want = [path(x) for x in e["python"][1:]]
    got = g["env"].get("PYTHONPATH", "").split(":")
    if not os.path.isdir(os.path.join(got[0], "ansibug")) or got[1:] != want:
        return "python-path", f"required the debugger's then {want}, got {got}"
    o, w = g["opts"], exp["opts"]

    def opt(x):
        return path(x["v"][0]) if x["set"] else None
    want = {"mode": w["mode"], "use_tls": w["tls"], "no_wait_for_config_done": w["nowait"], "tls_server_certfile": opt(w["cert"]), "tls_server_keyfile": opt(w["key"]),
            "tls_client_ca": opt(w["ca"]), "tls_server_key_password": val[w["pass"]["v"][0]] if w["pass"]["set"] else None, "log_file": opt(w["logfile"])}
    if w["logfile"]["set"]:
        want["log_level"] = w["loglevel"]
    if w["addr"] != "ADAPTER":
        want["debug_addr"] = val.get(w["addr"], w["addr"])
    for k, v in want.items():
        if o[k] != v:
            return "option:" + k, f"required {v!r}, got {o[k]!r}"
    if c["mode"] == "launch":
        a = r["asked"]
        if a["cwd"] != P["cwd"]:
            return "directory", str(a)
        if not o["debug_addr"].startswith("uds://"):
            return "option:debug_addr", o["debug_addr"]
        if r["left"]:
            return "files-left", str(r["left"])
    return None


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/C19")
    th = tier == "thorough"
    rep.tlc(tlc.must(tlc.run("StartMC", workers=6, timeout=600, mem="6g"), "StartMC"))
    items = []
    for _ in range(1800 if th else 170):
        c, val, how = case(rnd)
        items.append({"case": c, "val": val, "how": how})
    res = tlc.must(tlc.run("StartMC", env={"START_CASES": tlc.dump([i["case"] for i in items], "starts.json")}, workers=6, timeout=600, mem="6g", constants={"FromJson": "TRUE"}), "StartMC cases")
    rep.tlc(res)
    exp = {x["n"]: x for x in tlc.prints(res, "CASE")}
    if len(exp) != len(items):
        raise RuntimeError("StartMC did not give every case")
    results = zyg.run_many(items, session, timeout=150, budget=550 if th else 100)
    for k, (it, r) in enumerate(zip(items, results)):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        m = it["case"]["mode"]
        if "harness_error" in r:
            rep.broken(r, m, {"item": it, "exp": exp[k + 1]})
            continue
        rep.traces += 1
        rep.count(m)
        x = compare(it, exp[k + 1], r)
        if x:
            rep.viol(f"{x[0]}:{m}", x[1], {"item": it, "exp": exp[k + 1]})
    rep.sample({"mode": items[0]["case"]["mode"], "args": items[0]["case"]["args"], "options": items[0]["case"]["o"]})
    rep.assumptions += ["the launched process is ended when it would start Ansible; what it does from there is the other properties'",
                        "environment names are those a shell keeps; entries of search paths contain neither ':' nor '$', PYTHONPATH no empty ones",
                        "UDS addresses with '#' or '?' are not used as such"]


def replay(obj):
    r = zyg.run_many([obj["item"]], session, timeout=150)[0]
    return {"result": r, "verdict": None if "harness_error" in r else compare(obj["item"], obj["exp"], r)}
