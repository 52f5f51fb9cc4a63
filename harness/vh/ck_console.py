"""C20: debug console commands.

TLC checks Console on every entry made of a few pieces and prints them; these
and randomly composed entries are typed into real sessions.  Answers, module
options, variables and what the task gets are checked by TLC (ConsoleTrace).
"""
from __future__ import annotations
import json, os, random
from . import zyg, tlc, scenario
from .catalogue import T
from .dapclient import Gone, Timeout

LEVEL = "model_checking"
T0 = 40
PV = {"v_e": 41, "v_s": "text", "v_d": {"k": "val"}, "v_l": [1, "b"], "v_a": "start"}
EXPRS = [("1", 1), ("'a  b'", "a  b"), ('"#c"', "#c"), ("'so x 1'", "so x 1"), ("[1, 'x']", [1, "x"]), ("{'k': 'x'}", {"k": "x"}), ("v_e", 41),
         ("v_e + 1", 42), ("x if false else 2", 2), ("'x' ~ 'y'", "xy"), ("'-h'", "-h"), ("'--help' | upper", "--HELP"), ("-1", -1),
         ("'!ro x'", "!ro x"), ("'say \"x\"'", 'say "x"'), ('"it\'s"', "it's"), ("v_d['k']", "val"), ("v_d", {"k": "val"}), ("v_l", [1, "b"]), ("true", True), ("1.5", 1.5), ("v_s", "text"),
         ("( 1 )", 1), ("'\u00e9\u4e2d'", "\u00e9\u4e2d"), ("[]", []), ("'x'", "x"), ("'new new'", "new new"), ("'set_option so'", "set_option so"), ("v_l | length", 2), ("'a;b'", "a;b"),
         (r"'C:\dir'", r"C:\dir"), (r"v_s | regex_replace('^(t)', '<\1>')", "<t>ext"), ("{'a':{'b':1}}", {"a": {"b": 1}}), ("'a }} b'", "a }} b"), ("'50 %'", "50 %"), ("'a\tb'", "a\tb"),
         ("'$HOME'", "$HOME"), ("'007'", "007"), ("'true' ", "true"), ("v_l + [2]", [1, "b", 2]), ("'x' in v_s", True), ("3 if v_e == 41 else 4", 3), ("(1, 'x') | list", [1, "x"])]
ERRS = ["v_nope", "1 +", "'open", "1 / 0", "v_nope.x", "'a' | nofilter", ""]
NAMES = ["x", "new", "y z", "it's", 'a"b', "a\\b", "so", "1", "sox", " lead", "trail ", "", "out", "a#b", "#c", "x=1", "\u00e9", "x\ty", "-1", "- x", "v_a", "ro", "a;b", "t"]
CMDS = {"so": "so", "set_option": "so", "ro": "ro", "remove_option": "ro", "sh": "sh", "set_hostvar": "sh", "t": "t", "template": "t"}
PIECES = ["so", "ro", "sh", "t", "set_option", " ", "\t", "\"", "'", "\\", "x", "y z", "1", "-h", "-", "out"]
PROG = {"hosts": ["h1"], "plays": [{"items": [T("a", args={"x": "first"}), T("b", args={"x": "second", "y": 2})], "vars": PV}]}


def quote(rnd, name):
    k = rnd.randrange(4)
    if k == 0 and name and not set(name) & set(" \t\n\r'\"\\"):
        return name
    if k == 1 and "'" not in name:
        return "'" + name + "'"
    if k == 2 and name:
        return "".join("\\" + c for c in name)
    return '"' + name.replace("\\", "\\\\").replace('"', '\\"') + '"'


def compose(rnd):
    k = rnd.random()
    sp = lambda: rnd.choice([" ", " ", " ", "  ", "\t", " \t "])
    e = rnd.choice(EXPRS)[0] if rnd.random() < 0.8 else rnd.choice(ERRS)
    if k < 0.14:
        return ("plain", rnd.choice(["repl", "watch", "clipboard", "variables"]), e or "1")
    if k < 0.18:
        return ("plain", rnd.choice(["watch", "clipboard"]), "!" + rnd.choice(["ro x", "so x 1", "sh v_a 2"]))
    c = rnd.choice(list(CMDS))
    w = quote(rnd, c) if rnd.random() < 0.15 else c
    s = rnd.choice(["", "", "", " ", "\t"]) + w
    if CMDS[c] != "t" and rnd.random() < 0.05:
        e = "1"
    elif CMDS[c] != "t":
        s += sp() + quote(rnd, rnd.choice(NAMES))
    if CMDS[c] != "ro":
        s += (sp() + e) if rnd.random() < 0.95 else ""
    s += rnd.choice(["", "", "", " ", "\n"])
    if rnd.random() < 0.03:
        s = rnd.choice(["!", "!!", " !", "-", "#"]) + s
    if k > 0.85 and s:     # damage it
        i = rnd.randrange(len(s))
        s = s[:i] + rnd.choice(["", "", "'", '"', "\\", " ", "-", "x", "!"]) + s[i + rnd.randrange(2):]
    return ("bang", "repl", s)


class Drive:
    def __init__(self, item, out):
        self.it = item
        self.s = scenario.Session(out, PROG, item)
        self.traces = []

    def call(self, cmd, args):
        r = self.s.c.call(cmd, args, T0)
        return bool(r.get("success")), r.get("body") or {}

    def kids(self, ref):
        ok, b = self.call("variables", {"variablesReference": ref})
        return {v["name"]: v["value"] for v in b.get("variables", [])}

    def refs(self, f):
        ok, b = self.call("scopes", {"frameId": f})
        return {x["name"]: x["variablesReference"] for x in b.get("scopes", [])}

    def listing(self, ref):
        return {k: v for k, v in self.kids(ref).items() if k not in ("vars", "hostvars")}

    def at_stop(self, k, tid, entries):
        ok, b = self.call("stackTrace", {"threadId": tid})
        f = b["stackFrames"][0]["id"]
        start = PROG["plays"][0]["items"][k]["args"]
        tr = {"id": f"{self.it['id']}/{k}", "vals": {t: {"s": repr(v), "t": type(v).__name__} for t, v in EXPRS} | {e: {"s": "", "t": "error"} for e in ERRS if e},
              "opts": [["out", repr("ok")]] + [[n, repr(v)] for n, v in start.items()], "events": []}
        refs = None
        if self.it["scopes"]:
            refs = self.refs(f)
            if self.it["scopes"] == 2:
                self.refs(f)
                refs = self.refs(f)
        for n, (kind, ctx, text) in enumerate(entries):
            ok, b = self.call("evaluate", {"expression": ("!" if kind == "bang" else "") + text, "frameId": f, "context": ctx})
            if refs is None:
                refs = self.refs(f)
            e = {"e": "entry", "bang": kind == "bang", "cs": list(text), "ok": ok, "text": b.get("result") or "", "type": b.get("type") or "",
                 "opts": [[a, v] for a, v in self.kids(refs["Module Options"]).items()], "look": False, "vars": []}
            if n % 6 == 5 or n == len(entries) - 1 or "sh" in text or "hostvar" in text:
                e["look"] = True
                e["vars"] = self.listing(refs["Task Variables"])
            tr["events"].append(e)
        return tr

    def go(self):
        s, it = self.s, self.it
        st = {"hang": False, "crash": ""}
        n = 0
        try:
            s.start_playbook()
            if not s.wait_listen(T0):
                raise RuntimeError("never listened: " + s.read("pb.log")[-800:])
            s.start_adapter()
            path = os.path.join(s.root, "pb.yml")
            with open(path) as f:
                lines = [n for n, l in enumerate(f.read().split("\n"), 1) if l.startswith("  - name:")]
            scenario.attach_and_configure(s, [{"source": {"path": path}, "breakpoints": [{"line": l} for l in lines]}], [], timeout=T0)
            while True:
                m = s.c.next(T0)
                if m.get("event") == "terminated":
                    break
                if m.get("event") != "stopped":
                    continue
                tid = m["body"]["threadId"]
                self.traces.append(self.at_stop(n, tid, it["entries"][n]))
                n += 1
                self.call("continue", {"threadId": tid})
            s.c.request("disconnect", {})
            if s.wait_exit("da", T0) is None or s.wait_exit("pb", T0) is None:
                st["hang"] = True
        except Timeout:
            st["hang"] = True
        except Gone:
            st["crash"] = "adapter gone"
        except Exception:
            import traceback
            st["crash"] = traceback.format_exc()[-1500:]
        finally:
            s.kill()
        if n != 2 and not st["hang"] and not st["crash"]:
            st["crash"] = f"{n} stops instead of 2"
        execs = [r for r in s.records() if r["e"] == "exec"]
        for k, tr in enumerate(self.traces):
            for r in execs:
                if r["n"] == "ab"[k]:
                    tr["events"].append({"e": "exec", "args": [[a, v] for a, v in r["args"].items()]})
        return {"traces": self.traces, "state": st}


def session(item, out):
    return Drive(item, out).go()


def base_session(item, out):
    """The variables of both tasks when nothing is changed."""
    d = Drive({**item, "entries": [[("bang", "repl", "sh")]] * 2, "scopes": 1, "id": "base"}, out)
    r = d.go()
    if r["state"]["hang"] or r["state"]["crash"]:
        return r
    return {"names": [t["events"][0]["vars"] for t in r["traces"]]}


def settle(tr, k, base, hv):
    """Leaves the variables that are new, changed or among those watched."""
    for e in tr["events"]:
        if e["e"] == "entry" and e["look"]:
            e["vars"] = [[n, v] for n, v in e["vars"].items() if n in hv or n not in base]
    tr["hv"] = [[n, v] for n, v in hv.items()]


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/C20")
    th = tier == "thorough"
    path = tlc.dump([list(p) for p in PIECES], "pieces.json")
    res = tlc.must(tlc.run("ConsoleMC", env={"MC_CASES": path}, workers=6, timeout=600, mem="6g", constants={"MaxPieces": 4}), "ConsoleMC")
    rep.tlc(res)
    ents = tlc.prints(res, "ENT")
    if th:
        rep.tlc(tlc.must(tlc.run("ConsoleMC", env={"MC_CASES": path}, workers=8, timeout=900, mem="8g", constants={"MaxPieces": 5, "Emit": "FALSE"}), "ConsoleMC deep"))
    rep.count("model_entries", len(ents))
    by = {}
    for e in ents:
        by.setdefault(e["kind"], []).append("".join(e["cs"]))
    for v in by.values():
        rnd.shuffle(v)
    entries = []
    for kind, n in (("text", 700), ("t", 200), ("ro", 250), ("so", 500), ("sh", 350)):
        entries += [("bang", "repl", x) for x in by.get(kind, [])[:n * (8 if th else 1)]]
    entries += [compose(rnd) for _ in range(24000 if th else 3200)]
    rnd.shuffle(entries)
    items = []
    size = 30
    for k in range(0, len(entries), 2 * size):
        items.append({"id": str(k), "entries": [entries[k:k + size], entries[k + size:k + 2 * size]], "scopes": rnd.randrange(3)})
    base = zyg.run_many([{}], base_session, timeout=120)[0]
    results = zyg.run_many(items, session, timeout=180, budget=400 if th else 80)
    judge(rep, items, results, base)
    rep.sample({"entries": entries[:6]})
    rep.assumptions += ["values are compared for expressions of a fixed table, numbers and quoted words; of others only that nothing but the named place changes",
                        "names that look like switches (-x) and remove_option with more than a name may be refused with a text",
                        "backslashes inside expressions are left out: Ansible's own templating treats them"]


def judge(rep, items, results, base):
    tr = []
    if "harness_error" in base:
        raise RuntimeError(base["harness_error"])
    if "names" not in base:
        rep.viol("session-broke:base", str(base["state"]), {"item": items[0]})
        return
    names = [set(n) for n in base["names"]]
    for it, r in zip(items, results):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        if "harness_error" in r:
            rep.broken(r, it["id"], {"item": it})
            continue
        st = r["state"]
        if st["hang"] or st["crash"]:
            rep.viol("session-broke", str(st), {"item": it})
        hv = {n: repr(v) for n, v in PV.items()}
        for k, t in enumerate(r["traces"]):
            if k and t["events"]:
                # what the first stop left is where the second one starts
                hv = left(r["traces"][0], hv)
            settle(t, k, names[k], hv)
            tr.append(t)
            rep.count("entries", len(t["events"]))
    if not tr:
        return
    res = tlc.must(tlc.run("ConsoleTrace", env={"TRACES": tlc.dump(tr, "ctraces.json")}, workers=6, timeout=600, mem="6g"), "ConsoleTrace")
    rep.tlc(res)
    out = tlc.prints(res, "RES")
    if len(out) != len(tr):
        raise RuntimeError("ConsoleTrace did not finish every trace")
    rep.traces += len(out)
    by = {t["id"]: t for t in tr}
    byi = {i["id"]: i for i in items}
    for o in out:
        for v in o["viol"][:2]:
            e = by[o["id"]]["events"][v["pos"] - 1]
            txt = "".join(e.get("cs", []))
            rep.viol(f"{v['rule']}:{txt!r}", str(v["info"])[:800], {"item": byi[o["id"].split("/")[0]], "viol": o["viol"][:3]})


def left(trace, hv):
    out = dict(hv)
    for e in trace["events"]:
        if e["e"] == "entry" and e["look"]:
            seen = dict(e["vars"])
    return {**out, **seen}


def replay(obj):
    from .report import Report
    rep = Report("C20", "quick", 1)
    base = zyg.run_many([{}], base_session, timeout=120)[0]
    judge(rep, [obj["item"]], zyg.run_many([obj["item"]], session, timeout=120), base)
    return {s: v["info"] for s, v in rep.viols.items()}
