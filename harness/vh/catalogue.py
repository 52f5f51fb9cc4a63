"""Playbook programs: a fixed catalogue that covers every kind of structure, and a seeded generator."""
from __future__ import annotations
import random


def T(n, **k):
    return {"k": "t", "n": n, **k}


def I(n, f, items, **k):
    return {"k": "inc", "n": n, "file": f, "items": items, **k}


def P(n, f, items, **k):
    return {"k": "imp", "n": n, "file": f, "items": items, **k}


def B(b, r=None, a=None, **k):
    return {"k": "blk", "b": b, "r": r or [], "a": a or [], **k}


def R(n, role, items, **k):
    return {"k": "incrole", "n": n, "role": role, "items": items, **k}


def IR(n, role, items, **k):
    return {"k": "improle", "n": n, "role": role, "items": items, **k}


def M(m, **k):
    return {"k": "meta", "m": m, **k}


def one(items, hosts=("h1",), **k):
    return {"hosts": list(hosts), "plays": [{"items": items, **k}]}


H2, H3 = ("h1", "h2"), ("h1", "h2", "h3")

FIXED = {
    "plain": one([T("a"), T("b"), T("c")], H2),
    "import-in-include": one([T("a"), I("i", 1, [T("b"), P("im", 2, [T("b2"), T("b3")]), T("c")]), T("d")]),
    "import-top": one([T("a"), P("im", 2, [T("b2"), T("b3")]), T("c"), T("d")]),
    "nested-include": one([T("a"), I("i", 1, [I("i2", 2, [T("b2"), T("b3")])]), T("d"), T("e")]),
    "nested-include-tail": one([I("i", 1, [T("b"), I("i2", 2, [T("b2"), T("b3")]), T("b4")]), I("j", 3, [T("c")]), T("e")], H2),
    "block-in-include": one([T("a"), I("i", 1, [T("b"), B([T("b2"), T("b3")]), T("c")]), T("d")]),
    "include-in-block": one([B([T("a"), I("i", 1, [T("b"), T("c")]), T("d")], n="B1"), T("e")], H2),
    "roles": one([T("a"), R("i", "r1", [T("b"), T("b3")]), IR("i2", "r2", [T("c1"), T("c2")]), T("d")]),
    "role-in-include": one([I("i", 1, [T("a"), R("r", "r1", [T("b"), I("i2", 2, [T("c")]), T("d")]), T("e")]), T("f")], H2),
    "play-roles": {"hosts": ["h1"], "plays": [{"pre": [T("p1")], "roles": [{"role": "r1", "items": [T("x"), T("y")]}, {"role": "r2", "items": [I("i", 1, [T("z")])]}],
                                              "items": [T("t1")], "post": [T("q1")]}]},
    "handlers": one([T("a", notify="H"), T("b"), M("flush_handlers"), T("d", notify="H2")], H2, handlers=[T("H"), T("H2")]),
    "handler-in-include": one([T("a"), I("i", 1, [T("b", notify="H"), T("c")]), T("d")], handlers=[T("H")]),
    "flush-in-include": one([T("a"), I("i", 1, [T("b", notify="H"), M("flush_handlers"), T("c")]), T("d")], handlers=[T("H")]),
    "meta": one([T("a"), M("noop", n="M"), M("clear_facts"), T("d")]),
    "refresh": one([T("a"), M("refresh_inventory", n="RI"), T("b"), T("c")], H2),
    "end-host": one([T("a"), M("end_host", when="inventory_hostname == 'h1'"), T("b"), T("c")], H2),
    "end-play": {"hosts": ["h1", "h2"], "plays": [{"items": [T("a"), M("end_play"), T("b")]}, {"items": [T("c"), T("d")]}]},
    "two-plays": {"hosts": ["h1", "h2"], "plays": [{"items": [T("a"), T("b")]}, {"hosts": "h2", "items": [T("c"), I("i", 1, [T("d")])]}]},
    "serial": one([T("a"), I("i", 1, [T("b")]), T("c")], H3, serial=1),
    "serial2": one([T("a"), T("c")], H3, serial=2),
    "run-once": one([T("a"), T("b", run_once=True), T("c")], H2),
    "fail-host": one([T("a"), T("b", out={"h1": "fail"}), T("c"), T("d")], H2),
    "fail-all": {"hosts": ["h1"], "plays": [{"items": [T("a"), T("b", out="fail"), T("c")]}, {"items": [T("d")]}]},
    "any-errors-fatal": one([T("a"), T("b", out={"h1": "fail"}), T("c")], H2, x=["any_errors_fatal: true"]),
    "ignored": one([T("a", out="fail", ign=True), T("b", out="unreach", ignu=True), T("c"), T("d", out="exc", ign=True), T("e")]),
    "ignored-some": one([T("a", out="fail", ign=["h1", "h3"]), T("b", out="unreach", ignu=["h1"]), T("c", out="exc", ign=["h2"]), T("d")], H3),
    "unreach": one([T("a"), T("b", out={"h2": "unreach"}), T("c")], H2),
    "skips": one([T("a", when="false"), T("b", out="skip"), T("c", when="inventory_hostname == 'h2'"), T("d")], H2),
    "rescue": one([B([T("a"), T("b", out="fail"), T("c")], [T("r1"), T("r2")], [T("w1")], n="B1"), T("z")]),
    "rescue-some": one([B([T("a"), T("b", out={"h1": "fail"}), T("c")], [T("r1"), T("r2")], [T("w1")], n="B1"), T("z")], H2),
    "fail-in-rescue": one([B([T("a", out="fail")], [T("r1", out="fail"), T("r2")], [T("w1")], n="B1"), T("z")]),
    "fail-in-always": one([B([T("a")], [T("r1")], [T("w1", out="fail"), T("w2")], n="B1"), T("z")]),
    "nested-rescue": one([B([B([T("a", out="fail")], [T("r1", out="fail")], [T("w1")], n="B2"), T("b")], [T("r2")], n="B1"), T("z")]),
    "always-only": one([B([T("a"), T("b", out={"h1": "fail"})], None, [T("w1"), T("w2")], n="B1"), T("z")], H2),
    "fail-in-include-rescued": one([B([I("i", 1, [T("a"), T("b", out="fail"), T("c")])], [T("r1")], n="B1"), T("z")]),
    "fail-in-include": one([T("a"), I("i", 1, [T("b", out={"h1": "fail"}), T("c")]), T("z")], H2),
    "rescue-in-include": one([I("i", 1, [B([T("a"), T("b", out="exc")], [T("r1")], [T("w1")], n="B1"), T("c")]), T("z")]),
    "include-some": one([T("a"), I("i", 1, [T("b"), T("c")], only=["h1"]), T("d"), I("j", 2, [T("e")], only=["h2"]), T("f")], H2),
    "include-loop": one([T("a"), I("i", 1, [T("b"), T("c")], loop=2), T("d")]),
    "task-loop": one([T("a", loop=3), T("b")], H2),
    "include-twice": one([I("i", 1, [T("b"), T("c")]), T("m"), {"k": "inc", "n": "i again", "file": 1}, T("d")]),
    "include-missing-when": one([T("a"), I("i", 1, [T("b")], when="false"), T("c")]),
    "role-loop": one([R("r", "r1", [T("b"), T("c")], loop=2), T("z")]),
    "undefined": one([T("a"), T("b", when="nope_undefined"), T("c")], H2),
    "undefined-arg": one([T("a"), T("b", args={"x": "{{ nope_undefined }}"}, ign=True), T("c")]),
    "unnamed": one([T("a", nonname=True), I("i", 1, [T("b", nonname=True), T("c")]), T("z")]),
    "gaps": one([T("a", gap=2), B([T("b", gap=1)], [T("r")], [T("w")], n="B1", gap=1), I("i", 1, [T("c", gap=2), T("d")], head=2, gap=1), T("z", gap=3)]),
    "clear-errors": one([T("a"), T("b", out={"h1": "fail"}), M("clear_host_errors"), T("c")], H2),
    "end-batch": one([T("a"), M("end_batch"), T("b")], H3, serial=2),
    "fail-handler": one([T("a", notify="H"), M("flush_handlers"), T("b")], H2, handlers=[T("H", out={"h1": "fail"}), T("G")]),
    "three-deep": one([I("i1", 1, [T("a"), I("i2", 2, [T("b"), I("i3", 3, [T("c"), T("d")]), T("e")]), T("f")]), T("g")]),
    "same-names": one([T("t"), I("i", 1, [T("t"), I("i", 2, [T("t"), T("t")]), T("t")]), I("i", 3, [T("t")]), T("t")]),
    "include-last": one([T("a"), I("i", 1, [T("b"), I("j", 2, [T("c")])])], H2),
}


class Gen:
    """Random programs of bounded size; deterministic for a seed."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.f = 0
        self.role = 0
        self.budget = 0

    def name(self, p="t"):
        self.n += 1
        return f"{p}{self.n}"

    def outcome(self):
        r = self.r
        if r.random() < 0.68:
            return "ok"
        o = r.choice(["fail", "fail", "unreach", "skip", "exc"])
        return o if r.random() < 0.4 else {r.choice(self.hosts): o}

    def task(self):
        r = self.r
        k = {"out": self.outcome()}
        if r.random() < 0.15:
            k["ign"] = r.choice([True, [r.choice(self.hosts)]])
        if r.random() < 0.1:
            k["ignu"] = r.choice([True, [r.choice(self.hosts)]])
        if r.random() < 0.06:
            k["loop"] = 2
        if r.random() < 0.08:
            k["when"] = r.choice(["false", "inventory_hostname == 'h1'", "true"])
        if r.random() < 0.12 and self.handlers:
            k["notify"] = r.choice(self.handlers)
        if r.random() < 0.06:
            k["run_once"] = True
        if r.random() < 0.12:
            k["gap"] = r.randint(1, 2)
        self.budget -= 1
        return T(self.name(), **k)

    def items(self, depth, n):
        r = self.r
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            x = r.random()
            if depth <= 0 or x < 0.5:
                out.append(self.task())
            elif x < 0.66:
                self.f += 1
                k = {}
                if r.random() < 0.2:
                    k["only"] = [r.choice(self.hosts)]
                if r.random() < 0.08:
                    k["loop"] = 2
                f = self.f
                out.append(I(self.name("i"), f, self.items(depth - 1, r.randint(1, 3)) or [self.task()], head=r.randint(0, 1), **k))
            elif x < 0.73:
                self.f += 1
                f = self.f
                out.append(P(self.name("p"), f, self.items(depth - 1, r.randint(1, 3)) or [self.task()]))
            elif x < 0.80:
                self.role += 1
                rn = f"r{self.role}"
                out.append(R(self.name("ir"), rn, self.items(depth - 1, r.randint(1, 2)) or [self.task()]))
            elif x < 0.84:
                self.role += 1
                rn = f"r{self.role}"
                out.append(IR(self.name("pr"), rn, self.items(depth - 1, r.randint(1, 2)) or [self.task()]))
            elif x < 0.96:
                b = self.items(depth - 1, r.randint(1, 3)) or [self.task()]
                rs = self.items(depth - 1, r.randint(1, 2)) if r.random() < 0.6 else []
                al = self.items(depth - 1, 1) if r.random() < 0.4 else []
                out.append(B(b, rs, al, n=self.name("B")))
            else:
                out.append(M(r.choice(["noop", "flush_handlers", "clear_facts", "refresh_inventory"]), **({"n": self.name("m")} if r.random() < 0.5 else {})))
        return out

    def program(self, size=9):
        r = self.r
        self.hosts = ["h1", "h2", "h3"][:r.choice([1, 1, 2, 2, 2, 3])]
        self.budget = size
        plays = []
        for _ in range(r.choice([1, 1, 1, 2])):
            self.handlers = [f"H{len(plays)}{k}" for k in range(r.choice([0, 0, 1, 2]))]
            p = {"items": self.items(3, r.randint(2, 5)) or [self.task()]}
            if self.handlers:
                p["handlers"] = [T(h, out=self.outcome() if r.random() < 0.3 else "ok") for h in self.handlers]
            if r.random() < 0.12 and len(self.hosts) > 1:
                p["serial"] = r.choice([1, 2])
            if r.random() < 0.06:
                p["x"] = ["any_errors_fatal: true"]
            plays.append(p)
            if self.budget <= 0:
                break
        return {"hosts": self.hosts, "plays": plays}


def random_program(seed, size=9):
    return Gen(seed).program(size)
