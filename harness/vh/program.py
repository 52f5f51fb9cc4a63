"""Abstract playbook programs (JSON trees) and their rendering to YAML files.

items:
  {"k":"t","n":name,"out":"ok"|{host:outcome},"ign":bool|[hosts],"ignu":bool|[hosts],"loop":n,"when":str,"notify":h,"vars":{},"args":{},"run_once":bool}
  {"k":"inc"|"imp","n":name,"file":id,"items":[...],"only":[hosts],"loop":n}
  {"k":"incrole"|"improle","n":name,"role":id,"items":[...],"handlers":[...]}
  {"k":"blk","b":[...],"r":[...],"a":[...],"n":name}
  {"k":"meta","m":"noop"}
program: {"hosts":[...],"plays":[{"hosts":pattern,"items":[...],"pre":[],"post":[],"roles":[...],"handlers":[...],"serial":n,"vars":{}}],"files":{}}
"""
from __future__ import annotations
import json, os

ACTION = '''
from ansible.plugins.action import ActionBase
import json, os, time
class ActionModule(ActionBase):
    TRANSFERS_FILES = False
    _requires_connection = False
    def run(self, tmp=None, task_vars=None):
        task_vars = task_vars or {}
        h = task_vars.get("inventory_hostname")
        a = dict(self._task.args)
        fd = os.environ.get("VH_TRACE_FD")
        if fd:
            o = {"e": "exec", "h": h, "n": self._task.name, "args": {str(k): repr(v) for k, v in a.items()}, "t": time.monotonic_ns()}
            os.write(int(fd), (json.dumps(o) + "\\n").encode())
        if a.get("slow"):
            time.sleep(float(a["slow"]))
        outs = a.get("out", "ok")
        out = outs.get(h, "ok") if isinstance(outs, dict) else outs
        r = super().run(tmp, task_vars)
        if out == "ok":
            r.update(changed=bool(a.get("chg", False)), msg="ok")
        elif out == "fail":
            r.update(failed=True, msg="boom " + str(self._task.name))
        elif out == "unreach":
            r.update(unreachable=True, msg="unreach " + str(self._task.name))
        elif out == "skip":
            r.update(skipped=True, skip_reason="asked to skip")
        elif out == "exc":
            r.update(failed=True, msg="boom " + str(self._task.name), exception="Traceback: line\\nZError")
        return r
'''


class M(str):
    """A line where a task or play (t = 1) or an explicit block (t = 0) starts."""
    t = 1


def mk(text, t=1):
    m = M(text)
    m.t = t
    return m


def yaml_value(v):
    """JSON keeps no keys that are not strings, YAML flow style does."""
    if isinstance(v, dict):
        return "{" + ", ".join(f"{yaml_value(k)}: {yaml_value(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(yaml_value(x) for x in v) + "]"
    return json.dumps(v)


def flag(v):
    """True, or only for the hosts listed."""
    return "true" if v is True else json.dumps("{{ inventory_hostname in %s }}" % str(list(v)))


class Writer:
    def __init__(self, root, prog):
        self.root, self.prog = root, prog
        self.files = {}      # relative path -> list of lines
        self.marks = {}      # relative path -> [[line, 0/1], ...]
        self.static = {"pb.yml"}
        self.done = set()

    def emit(self, rel, lines):
        self.files[rel] = lines
        self.marks[rel] = [[n + 1, x.t] for n, x in enumerate(lines) if isinstance(x, M)]

    def items(self, items, ind, rel):
        L = []
        pad = " " * ind
        for it in items:
            L += [""] * it.get("gap", 0)
            k = it["k"]
            if k == "t":
                if it.get("nonname"):
                    L.append(mk(f"{pad}- vact:"))
                else:
                    L.append(mk(f"{pad}- name: {it['n']}"))
                    L.append(f"{pad}  vact:")
                L.append(f"{pad}    out: {json.dumps(it.get('out', 'ok'))}")
                if it.get("notify"):
                    L.append(f"{pad}    chg: true")
                for a, v in (it.get("args") or {}).items():
                    L.append(f"{pad}    {a}: {yaml_value(v)}")
                if it.get("ign"):
                    L.append(f"{pad}  ignore_errors: {flag(it['ign'])}")
                if it.get("ignu"):
                    L.append(f"{pad}  ignore_unreachable: {flag(it['ignu'])}")
                if it.get("loop"):
                    L.append(f"{pad}  loop: {json.dumps(list(range(it['loop'])))}")
                if it.get("notify"):
                    L.append(f"{pad}  notify: {json.dumps(it['notify'])}")
            elif k in ("inc", "imp"):
                act = "include_tasks" if k == "inc" else "import_tasks"
                f = f"f_{it['file']}.yml"
                L.append(mk(f"{pad}- name: {it['n']}") if k == "inc" else f"{pad}- name: {it['n']}")
                L.append(f"{pad}  {act}: {self.path(rel, f)}")
                if it.get("only"):
                    L.append(f"{pad}  when: inventory_hostname in {json.dumps(it['only'])}")
                if it.get("loop"):
                    L.append(f"{pad}  loop: {json.dumps(list(range(it['loop'])))}")
                if "items" in it and f not in self.done:
                    self.done.add(f)
                    self.emit(f, ["# tasks"] * it.get("head", 0) + self.items(it["items"], 0, f))
            elif k in ("incrole", "improle"):
                L.append(mk(f"{pad}- name: {it['n']}") if k == "incrole" else f"{pad}- name: {it['n']}")
                L.append(f"{pad}  {'include_role' if k == 'incrole' else 'import_role'}:")
                L.append(f"{pad}    name: {it['role']}")
                if it.get("loop"):
                    L.append(f"{pad}  loop: {json.dumps(list(range(it['loop'])))}")
                self.role(it)
            elif k == "blk":
                L.append(mk(f"{pad}- name: {it.get('n', 'blk')}", 0))
                L.append(f"{pad}  block:")
                L += self.items(it["b"], ind + 4, rel)
                if it.get("r"):
                    L.append(f"{pad}  rescue:")
                    L += self.items(it["r"], ind + 4, rel)
                if it.get("a"):
                    L.append(f"{pad}  always:")
                    L += self.items(it["a"], ind + 4, rel)
            elif k == "meta":
                if it.get("n"):
                    L.append(mk(f"{pad}- name: {it['n']}"))
                    L.append(f"{pad}  meta: {it['m']}")
                else:
                    L.append(mk(f"{pad}- meta: {it['m']}"))
            if it.get("when") is not None and k != "blk":
                L.append(f"{pad}  when: {json.dumps(it['when'])}")
            if it.get("vars") and k != "blk":
                L.append(f"{pad}  vars:")
                for a, v in it["vars"].items():
                    L.append(f"{pad}    {a}: {yaml_value(v)}")
            if it.get("run_once"):
                L.append(f"{pad}  run_once: true")
            for x in it.get("x", []):
                L.append(f"{pad}  {x}")
        return L

    def path(self, rel, f):
        return os.path.join(self.root, f)

    def role(self, it):
        key = "role:" + it["role"]
        if key in self.done or "items" not in it:
            return
        self.done.add(key)
        t = f"roles/{it['role']}/tasks/main.yml"
        self.emit(t, ["---"] + self.items(it["items"], 0, t))
        if it.get("handlers"):
            h = f"roles/{it['role']}/handlers/main.yml"
            self.emit(h, ["---"] + self.items(it["handlers"], 0, h))

    def write(self):
        L = []
        for p in self.prog["plays"]:
            L.append(mk(f"- name: {p.get('n', 'play')}"))
            L.append(f"  hosts: {p.get('hosts', 'all')}")
            L.append("  gather_facts: false")
            if p.get("serial"):
                L.append(f"  serial: {p['serial']}")
            for x in p.get("x", []):
                L.append(f"  {x}")
            if p.get("vars"):
                L.append("  vars:")
                for a, v in p["vars"].items():
                    L.append(f"    {a}: {yaml_value(v)}")
            for key, y in (("pre", "pre_tasks"), ("items", "tasks"), ("post", "post_tasks"), ("handlers", "handlers")):
                if p.get(key):
                    L.append(f"  {y}:")
                    L += self.items(p[key], 2, "pb.yml")
                if key == "pre" and p.get("roles"):
                    L.append("  roles:")
                    for r in p["roles"]:
                        L.append(f"  - {r['role']}")
                        self.role(r)
        self.emit("pb.yml", L)
        os.makedirs(os.path.join(self.root, "action_plugins"), exist_ok=True)
        with open(os.path.join(self.root, "action_plugins", "vact.py"), "w") as f:
            f.write(ACTION)
        for rel, lines in self.files.items():
            p = os.path.join(self.root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("\n".join(lines) + "\n")
        inv = ["[all]"]
        for h in self.prog.get("hosts", ["h1"]):
            inv.append(f"{h} ansible_connection=local ansible_python_interpreter=/opt/venv/bin/python")
        inv += self.prog.get("inv", [])
        with open(os.path.join(self.root, "inv.ini"), "w") as f:
            f.write("\n".join(inv) + "\n")
        return self.files
