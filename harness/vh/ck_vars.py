"""C08, C09: what a client sees and changes while a play is stopped.

 1. TLC explores Vars with invariants over small alphabets and prints scripts
    of looks and changes; each is performed in a real session;
 2. random long scripts over playbooks with several hosts, includes, handlers
    and failing tasks;
 both recordings (answers to the client and the options that the tasks really
 got) are checked by TLC against VarsTrace.
"""
from __future__ import annotations
import json, os, random, time
from . import zyg, tlc, scenario
from .program import yaml_value
from .dapclient import Gone, Timeout

LEVEL = "model_checking"
T0 = 40
RULES = {
    "C08": {"frame-of-other-task", "frame-id-reused", "answered-for-ended-frame", "scopes-refused", "reference-reused", "module-result-scope", "wrong-child-count",
            "variables-refused", "module-result", "wrong-children", "wrong-value", "value-missing", "session-broke", "wrong-expression-value", "evaluate-refused",
            "value-of-unknown-expression", "seen-by-other-host", "ran-with-other-options"},
    "C09": {"wrong-value", "value-missing", "wrong-children", "set-to-unknown-value", "set-refused", "set-of-unknown-place", "wrong-set-answer", "command-refused",
            "ran-with-other-options", "ran-with-unknown-option", "did-not-run", "wrong-expression-value", "session-broke", "wrong-child-count"},
}


# ---------------------------------------------------------------- values
def tree(v):
    if isinstance(v, dict):
        return {"t": "dict", "s": "", "n": 0, "c": [{"k": str(k), "r": repr(k), "v": tree(x)} for k, x in v.items()]}
    if isinstance(v, list):
        return {"t": "list", "s": "", "n": 0, "c": [{"k": str(k), "r": str(k), "v": tree(x)} for k, x in enumerate(v)]}
    t = type(v).__name__
    if t == "str" and "{{" in v:
        t = "x"
    return {"t": t, "s": repr(v), "n": int(v) if t in ("int", "bool") else 0, "c": []}


def templates(v, out):
    if isinstance(v, dict):
        for x in v.values():
            templates(x, out)
    elif isinstance(v, list):
        for x in v:
            templates(x, out)
    elif isinstance(v, str) and "{{" in v:
        out[repr(v)] = parse(v.strip("{} "))
    return out


def parse(e):
    if "." in e:
        n, k = e.split(".")
        return {"op": "get", "n": n, "k": k}
    return {"op": "var", "n": e}


def lit(v):
    return {"op": "lit", "v": tree(v), "text": text_of(v)}


def text_of(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{text_of(k)}: {text_of(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(text_of(x) for x in v) + "]"
    return repr(v)


def text(e):
    op = e["op"]
    if "text" in e:
        return e["text"]
    if op == "var":
        return e["n"]
    if op == "inc":
        return f"{e['n']} + {e['i']}"
    if op == "get":
        return f"{e['n']}['{e['k']}']"
    if op == "hv":
        return f"hostvars['{e['h']}']['{e['n']}']"
    raise ValueError(e)


BAD = [{"op": "bad", "text": t} for t in ("v_nope", "1 +", "1 / 0", "v_nope.x", "[1", "'a' | nofilter", "v_nope + 1")]


# ---------------------------------------------------------------- programs
def V(n, args=None, vars=None, **k):
    return {"k": "t", "n": n, "args": args or {}, **({"vars": vars} if vars else {}), **k}


def INC(n, f, items):
    return {"k": "inc", "n": n, "file": f, "items": items}


HV2 = {"h1": {"v_h": 1, "v_hs": "one", "v_ht": "{{ v_hs }}", "v_hd": {"a": 1, "b": [1, 2]}}, "h2": {"v_h": 2, "v_hs": "two", "v_hd": {"a": 3, "b": []}}}
PV = {"v_p": 10, "v_ps": "ten", "v_l": [1, ["in", True], {"k": "v"}], "v_d": {"a": 1, "b": {"c": [2, 3]}, 7: "seven"}, "v_t": "{{ v_ps }}", "v_td": {"x": "{{ v_hs }}"}, "v_e": []}

PROGS = {
    "two-hosts": {"hosts": ["h1", "h2"], "pv": PV, "hv": HV2, "items": [
        V("a", {"x": "{{ v_p }}", "y": "plain", "z": {"k": "{{ v_h }}", "l": [1, "{{ v_hs }}"]}}, {"v_k": 3, "v_kl": [4, 5]}),
        V("b", {"x": "{{ v_p }}", "h": "{{ v_h }}", "e": []}),
        V("c", {"x": "{{ v_h }}", "t": "{{ v_ps }}"}, {"v_ps": "other"})]},
    "undefined": {"hosts": ["h1"], "pv": {"v_p": 1}, "hv": {"h1": {"v_h": 5}}, "items": [
        V("a", {"x": "{{ v_u }}"}, ign=True), V("b", {"x": "{{ v_u }}", "y": "{{ v_p }}"}, ign=True), V("c", {"x": "{{ v_h }}"})]},
    "include": {"hosts": ["h1", "h2"], "pv": {"v_p": 1, "v_d": {"a": [1], "2": {"b": 3}}}, "hv": HV2, "items": [
        V("a", {"x": "{{ v_p }}"}), INC("i", 1, [V("b", {"x": "{{ v_p }}", "m": {"n": {"o": 1}}}), V("c", {"x": "{{ v_h }}"}, {"v_k": "kay"})]), V("d", {"x": "{{ v_p }}"})]},
    "nested": {"hosts": ["h1"], "pv": {"v_p": 1, "v_l": [[1, 2], []]}, "hv": {"h1": {"v_h": 2}}, "items": [
        INC("i", 1, [V("a", {"x": "{{ v_p }}"}), INC("j", 2, [V("b", {"x": "{{ v_l }}"}), V("c", {"l": [1, [2, [3]]]})]), V("d", {"y": "{{ v_h }}"})]), V("e", {"y": 1})]},
    "failing": {"hosts": ["h1"], "pv": {"v_p": 3}, "hv": {"h1": {"v_h": 2}}, "filters": ["on_error", "on_unreachable", "on_skipped"], "items": [
        V("a", {"x": "{{ v_p }}"}, out="fail", ign=True), V("b", {"x": "{{ v_h }}"}, out="skip"), V("c", {"x": "{{ v_p }}"}, out="fail")]},
    "three": {"hosts": ["h1", "h2", "h3"], "pv": {"v_p": 1}, "hv": {"h1": {"v_h": 1}, "h2": {"v_h": 2}, "h3": {"v_h": 3, "v_hs": "x"}}, "items": [
        V("a", {"x": "{{ v_h }}"}), V("b", {"x": "{{ v_h }}", "y": "{{ v_p }}"})]},
    "types": {"hosts": ["h1"], "pv": {"v_p": 1, "v_b": True, "v_f": 1.5, "v_n": None, "v_s": "", "v_q": "it's \"so\"", "v_d": {1: "int", "1x": "str", True: "bool", 2.5: [1]}, "v_dd": {"": {}}, "v_u": "\u00e9\u4e2d"},
              "hv": {"h1": {"v_h": 1}}, "items": [V("a", {"x": True, "y": 1.5, "q": "it's", "u": "\u00e9", "d": {"k": {"l": [0]}}}), V("b", {"x": "{{ v_b }}", "y": "{{ v_f }}", "u": "{{ v_u }}"})]},
    "overlap": {"hosts": ["h1", "h2", "h3"], "pv": {"v_p": 1, "v_d": {"a": 1}}, "fork": True, "hv": {"h1": {"v_h": 1}, "h2": {"v_h": 2}, "h3": {"v_h": 3}}, "items": [
        V("a", {"x": "{{ v_h }}", "slow": 0.6}), V("b", {"x": "{{ v_h }}", "y": "{{ v_p }}", "slow": 0.3})]},
    "handler": {"hosts": ["h1", "h2"], "pv": {"v_p": 1}, "hv": HV2, "handlers": [V("H", {"x": "{{ v_h }}", "y": "{{ v_p }}"})], "items": [
        V("a", {"x": "{{ v_p }}"}, notify="H"), V("b", {"y": "{{ v_h }}"})]},
}


def rand_value(rnd, depth=2):
    k = rnd.random()
    if depth and k < 0.2:
        return [rand_value(rnd, depth - 1) for _ in range(rnd.randint(0, 3))]
    if depth and k < 0.42:
        return {rnd.choice(["a", "b", "k", "v x", 7, "7y"]): rand_value(rnd, depth - 1) for _ in range(rnd.randint(0, 3))}
    return rnd.choice([0, 1, 2, 41, -3, True, False, "s", "some text", "it's", "caf\u00e9"])


def rand_prog(rnd, k):
    hosts = ["h1", "h2", "h3"][:rnd.choice([1, 1, 2, 2, 3])]
    pv = {n: rand_value(rnd) for n in rnd.sample(["v_p", "v_q", "v_r", "v_l"], rnd.randint(1, 4))}
    hv = {h: {n: rand_value(rnd) for n in ("v_h", "v_i") if rnd.random() < 0.8} for h in hosts}
    names = list(pv) + [n for n in ("v_h", "v_i") if all(n in hv[h] for h in hosts)]
    simple = [n for n in names if all(isinstance(m[n], (int, float)) or (isinstance(m[n], str)) for m in ([pv] if n in pv else [hv[h] for h in hosts]))]
    cnt = [0]

    def task():
        cnt[0] += 1
        a = {}
        for n in rnd.sample(["x", "y", "z", "w"], rnd.randint(0, 3)):
            c = rnd.random()
            if c < 0.5 and simple:
                a[n] = "{{ %s }}" % rnd.choice(simple)
            elif c < 0.56:
                a[n] = "{{ v_un }}"
            elif c < 0.7 and simple:
                a[n] = {"k": "{{ %s }}" % rnd.choice(simple), "l": rand_value(rnd, 1)}
            else:
                a[n] = rand_value(rnd)
        out = rnd.choice(["ok"] * 6 + ["fail", "skip"])
        return V(f"t{cnt[0]}", a, {n: rand_value(rnd) for n in ("v_k",) if rnd.random() < 0.4} | ({"v_p": rand_value(rnd)} if rnd.random() < 0.15 else {}), out=out, ign=True)
    files = [0]

    def items(depth, n):
        r = []
        for _ in range(n):
            if depth and rnd.random() < 0.25:
                files[0] += 1
                f = files[0]
                r.append(INC(f"i{f}", f, items(depth - 1, rnd.randint(1, 2))))
            else:
                r.append(task())
        return r
    return {"hosts": hosts, "pv": pv, "hv": hv, "items": items(2, rnd.randint(2, 4)), "filters": rnd.choice([[], ["on_error"], ["on_error", "on_skipped"]])}


def walk(items):
    for i in items:
        yield i
        if i["k"] == "inc":
            yield from walk(i["items"])


def build(p):
    """The playbook (for program.Writer) and what Vars is told about it."""
    play = {"items": p["items"], "vars": p["pv"]}
    if p.get("handlers"):
        play["handlers"] = p["handlers"]
    prog = {"hosts": p["hosts"], "plays": [play]}
    tm, tasks = {}, {}
    templates(p["pv"], tm)
    templates(p["hv"], tm)
    for i in walk(p["items"] + p.get("handlers", [])):
        if i["k"] == "t":
            args = {"out": i.get("out", "ok"), **({"chg": True} if i.get("notify") else {}), **i["args"]}
        else:
            args = {"_raw_params": "@" + str(i["file"])}
        templates(args, tm)
        templates(i.get("vars", {}), tm)
        tasks[i["n"]] = {"args": args, "vars": i.get("vars", {})}
    return prog, tm, tasks


def jd(p, root):
    """The program as VarsTrace wants it."""
    _, tm, tasks = build(p)
    clean = lambda m: {k: tree(v) for k, v in m.items()}
    for t in tasks.values():
        f = t["args"].get("_raw_params")
        if f:
            t["args"]["_raw_params"] = os.path.join(root, f"f_{f[1:]}.yml")
    return {"pv": clean(p["pv"]), "pvn": list(p["pv"]), "hosts": p["hosts"],
            "hv": {h: clean(v) for h, v in p["hv"].items()}, "hvn": {h: list(v) for h, v in p["hv"].items()},
            "taskn": list(tasks), "tasks": {n: {"args": clean(t["args"]), "argn": list(t["args"]), "vars": clean(t["vars"]), "varn": list(t["vars"])} for n, t in tasks.items()},
            "tmpl": tm}


# ---------------------------------------------------------------- sessions
class Drive:
    def __init__(self, item, out):
        self.it, self.rnd = item, random.Random(item.get("seed"))
        p = item["prog"]
        prog = build(p)[0]
        self.s = scenario.Session(out, prog, {**item, "inline": not p.get("fork")})
        os.makedirs(os.path.join(self.s.root, "host_vars"))
        for h, v in p["hv"].items():
            with open(os.path.join(self.s.root, "host_vars", h + ".yml"), "w") as f:
                f.write("---\n" + "".join(f"{k}: {yaml_value(x)}\n" for k, x in v.items()))
        self.ev = []
        self.scope = {}      # frame -> {scope: ref} (latest)
        self.kids = {}       # ref -> last children seen
        self.fresh = []      # (frame, ref, type) of containers set, still fine to change
        self.sets = []       # (frame, ref) of every container set, of this stop or of one before
        self.lastset = []    # containers set in the frame that had some and ended last
        self.frames = []     # live frames, stopped thread's first
        self.ended = []
        self.oldrefs = []
        self.exc = set()
        self.unk = {}
        self.reqs = 0

    def add(self, e, **k):
        self.ev.append([time.monotonic_ns(), {"e": e, **k}])

    def call(self, cmd, args):
        self.reqs += 1
        r = self.s.c.call(cmd, args, T0)
        return bool(r.get("success")), r.get("body") or {}, str(r.get("message") or "")

    def scopes(self, f):
        ok, b, msg = self.call("scopes", {"frameId": f})
        names = {"Module Options": "opts", "Task Variables": "task", "Host Variables": "host", "Global Variables": "glob", "Module Result": "result"}
        refs = {v: 0 for v in names.values()}
        nopts = 0
        if ok:
            for sc in b.get("scopes", []):
                refs[names.get(sc["name"], sc["name"])] = sc["variablesReference"]
                if sc["name"] == "Module Options":
                    nopts = sc.get("namedVariables", 0)
            self.scope[f] = refs
        self.add("scopes", f=f, ok=ok, msg=msg[-200:], refs=refs, exc=f in self.exc, nopts=nopts)
        return refs

    def variables(self, ref, keep=None, start=0, count=0, flt=""):
        a = {"variablesReference": ref}
        if start:
            a["start"] = start
        if count:
            a["count"] = count
        if flt:
            a["filter"] = flt
        ok, b, msg = self.call("variables", a)
        kids = [{"name": v["name"], "value": v["value"], "type": v.get("type") or "", "ref": v.get("variablesReference", 0),
                 "named": v.get("namedVariables") or 0, "indexed": v.get("indexedVariables") or 0} for v in b.get("variables", [])]
        if keep:
            kids = [k for k in kids if k["name"].startswith(keep)]
        self.kids[ref] = kids
        self.add("vars", ref=ref, ok=ok, msg=msg[-200:], start=start, count=count, filter=flt, kids=kids)
        return kids

    def look(self, f, which=("opts", "task", "host", "glob"), depth=0, again=True):
        if again or f not in self.scope:
            self.scopes(f)
        refs = self.scope.get(f)
        if not refs:
            return
        for k in which:
            if refs.get(k):
                kids = self.variables(refs[k], None if k in ("opts", "result") else "v_")
                self.deeper(kids, depth)

    def deeper(self, kids, depth):
        if depth:
            for x in kids:
                if x["ref"]:
                    self.deeper(self.variables(x["ref"]), depth - 1)

    def do_set(self, ref, name, ast, f, kind):
        ok, b, msg = self.call("setVariable", {"variablesReference": ref, "name": name, "value": text(ast)})
        r2 = b.get("variablesReference", 0)
        self.add("set", ref=ref, name=name, ast=ast, ok=ok, msg=msg[-200:], value=b.get("value", ""), type=b.get("type") or "", ref2=r2,
                 named=b.get("namedVariables") or 0, indexed=b.get("indexedVariables") or 0)
        if ok and r2:
            self.fresh.append((f, r2, b.get("type")))
            self.sets.append((f, r2))

    def do_eval(self, f, ast, context="watch"):
        ok, b, msg = self.call("evaluate", {"expression": text(ast), "frameId": f, "context": context})
        self.add("eval", f=f, ast=ast, ok=ok, msg=msg[-200:], value=b.get("result", ""), type=b.get("type") or "")

    def do_cmd(self, f, kind, name, ast):
        e = f"!{kind} {name}" + (f" {text(ast)}" if kind != "ro" else "")
        ok, b, msg = self.call("evaluate", {"expression": e, "frameId": f, "context": "repl"})
        # the scopes shown before are not the latest ones any more if none were asked for
        self.add("cmd", f=f, kind=kind, name=name, ast=ast or {"op": "bad"}, ok=ok, msg=msg[-200:])

    # one operation of a script; frames are counted from the top of the stopped thread
    def op(self, o):
        k = o["op"]
        if k in ("stale-scopes", "stale-vars", "stale-set", "stale-eval", "stale-cmd"):
            return self.stale(o)
        if k == "setagain":
            live = [r for g, r in self.sets if g in self.frames]
            if live:
                self.variables(live[o.get("n", 0) % len(live)])
            return
        fi = o.get("fi", 0)
        if fi >= len(self.frames):
            return
        f = self.frames[fi]
        if k == "scopes":
            return self.scopes(f)
        if k == "eval":
            return self.do_eval(f, o["ast"], o.get("ctx", "watch"))
        if k == "cmd":
            return self.do_cmd(f, o["kind"], o["name"], o["ast"])
        if k == "look":
            return self.look(f, depth=o.get("depth", 0), which=o.get("which", ("opts", "task", "host", "glob")), again=o.get("again", True))
        if k == "setin":
            fr = [x for x in self.fresh if x[0] in self.frames]
            if fr:
                f, ref, t = fr[-1 - o.get("n", 0) % len(fr)]
                self.do_set(ref, o["name"] if t == "dict" or o.get("raw") else o["index"], o["ast"], f, "in")
                self.variables(ref)
            return
        if f not in self.scope:
            self.scopes(f)
        refs = self.scope.get(f)
        if not refs:
            return
        if k == "set":
            return self.do_set(refs[o["scope"]], o["name"], o["ast"], f, o["scope"])
        ref = refs.get(o["scope"]) or 0
        if not ref:
            return
        if k == "vars":
            return self.variables(ref, None if o["scope"] in ("opts", "result") else "v_")
        if k == "kid":
            kids = self.kids.get(ref)
            if kids is None:
                kids = self.variables(ref, None if o["scope"] in ("opts", "result") else "v_")
            boxes = [x for x in kids if x["ref"]]
            if boxes:
                x = boxes[o["n"] % len(boxes)]
                self.variables(x["ref"], start=o.get("start", 0), count=o.get("count", 0), flt=o.get("filter", ""))

    def stale(self, o):
        k, n = o["op"], o.get("n", 0)
        if not self.ended:
            return
        f = self.ended[-1 - n % min(6, len(self.ended))]
        if k == "stale-scopes":
            return self.scopes(f)
        if k == "stale-eval":
            return self.do_eval(f, {"op": "lit", "v": tree(1), "text": "1"})
        if k == "stale-cmd":
            return self.do_cmd(f, "so", "x", lit(1))
        old = self.lastset if o.get("set") else self.oldrefs[-40:]
        if not old:
            return
        ref = old[n % len(old)]
        if k == "stale-vars":
            return self.variables(ref)
        self.do_set(ref, "x", lit(1), f, "old")

    def stop(self, m):
        tid = m["body"]["threadId"]
        exc = m["body"]["reason"] == "exception"
        ok, b, _ = self.call("threads", {})
        order = [tid] + [t["id"] for t in b["threads"] if t["id"] != tid]
        names = {t["id"]: t["name"] for t in b["threads"]}
        live, stack = [], {}
        for t in order:
            ok, b, _ = self.call("stackTrace", {"threadId": t})
            for fr in b.get("stackFrames", []):
                live.append(fr["id"])
                stack[fr["id"]] = (names.get(t), fr["name"])
        if not live:
            raise RuntimeError("stopped without a frame")
        gone = [f for f in self.frames if f not in live]
        self.ended += gone
        for f in gone:
            sc = self.scope.pop(f, {})
            for r in sc.values():
                if r:
                    self.oldrefs.append(r)
                    self.oldrefs += [x["ref"] for x in self.kids.get(r, []) if x["ref"]]
            mine = [r for g, r in self.sets if g == f]
            self.sets = [x for x in self.sets if x[0] != f]
            self.oldrefs += mine
            self.lastset = mine or self.lastset
        self.frames = live
        if exc:
            self.exc.add(live[0])
        for f in live[::-1]:
            self.add("stop", f=f, h=stack[f][0], task=stack[f][1], live=live)
        return tid

    def go(self):
        s, it = self.s, self.it
        st = {"hang": False, "crash": ""}
        n = 0
        try:
            s.start_playbook()
            if not s.wait_listen(T0):
                raise RuntimeError("never listened: " + s.read("pb.log")[-800:])
            s.start_adapter()
            bps = []
            for rel in s.files:
                bps.append({"source": {"path": os.path.join(s.root, rel)}, "breakpoints": [{"line": l} for l in self.lines(rel)]})
            scenario.attach_and_configure(s, bps, it["prog"].get("filters", []), timeout=T0)
            while True:
                m = s.c.next(T0)
                if m.get("event") == "terminated":
                    break
                if m.get("event") != "stopped":
                    continue
                tid = self.stop(m)
                for o in self.ops(n):
                    self.op(o)
                n += 1
                self.fresh = []
                s.c.call("continue", {"threadId": tid}, T0)
            s.c.request("disconnect", {})
            if s.wait_exit("da", T0) is None or s.wait_exit("pb", T0) is None:
                st["hang"] = True
        except Timeout:
            st["hang"] = True
        except Gone:
            st["crash"] = "adapter gone"
        except Exception:
            import traceback
            st["crash"] = traceback.format_exc()[-1500:]
        finally:
            s.kill()
        log = s.read("pb.log")
        if "Unexpected Exception" in log or "Exception in thread" in log:
            st["crash"] += log[-1500:]
        bad = st["hang"] or st["crash"]
        self.add("outcome", good=not bad, info=str(st) if bad else "")
        return {"events": self.merge(), "root": s.root, "stops": n, "reqs": self.reqs}

    def lines(self, rel):
        # every line where a task starts; the play itself cannot stop
        with open(os.path.join(self.s.root, rel)) as f:
            return [n for n, l in enumerate(f.read().split("\n"), 1) if l.lstrip().startswith("- name:") and not (rel == "pb.yml" and l.startswith("- "))]

    def ops(self, n):
        if "script" in self.it:
            return self.it["script"][n] if n < len(self.it["script"]) else []
        return rand_ops(self.rnd, self.it["prog"], n)

    def merge(self):
        ev = list(self.ev)
        # What a task runs with is settled when it is handed over.
        names, start, ran = {}, {}, set()
        for r in sorted(self.s.records(), key=lambda r: r["t"]):
            if r["e"] == "start":
                names[r["u"]] = r["name"]
                start[r["h"], r["name"]] = r["t"]
                ran.discard((r["h"], r["name"]))
            elif r["e"] == "exec":
                ran.add((r["h"], r["n"]))
                ev.append([start.get((r["h"], r["n"]), r["t"]), {"e": "exec", "h": r["h"], "task": r["n"], "args": r["args"]}])
            elif r["e"] == "end" and r["u"] in names and (r["h"], names[r["u"]]) not in ran and not self.is_inc(names[r["u"]]):
                ev.append([start[r["h"], names[r["u"]]], {"e": "noexec", "h": r["h"], "task": names[r["u"]]}])
        ev.sort(key=lambda x: x[0])
        return [e for _, e in ev]

    def is_inc(self, name):
        return any(i["n"] == name and i["k"] == "inc" for i in walk(self.it["prog"]["items"]))


def session(item, out):
    return Drive(item, out).go()


# ---------------------------------------------------------------- random scripts
def rand_ast(rnd, prog):
    k = rnd.random()
    if k < 0.4:
        return lit(rand_value(rnd, 2))
    if k < 0.55:
        return rnd.choice(BAD)
    names = [n for n in prog["pv"] if n != "v_f"] + ["v_h", "v_hs", "v_k", "v_new"]
    n = rnd.choice(names)
    if k < 0.75:
        return {"op": "var", "n": n}
    if k < 0.85:
        return {"op": "inc", "n": n, "i": rnd.choice([1, 7])}
    h = rnd.choice(prog["hosts"])
    return {"op": "hv", "h": h, "n": rnd.choice(list(prog["hv"][h]) + ["v_new"])}


def rand_ops(rnd, prog, n):
    out = []
    if rnd.random() < 0.15:
        return out
    scopes = ["opts", "task", "host", "glob"]
    for _ in range(rnd.randint(1, 6)):
        fi = rnd.choice([0, 0, 0, 0, 1, 2, 3])
        k = rnd.random()
        if k < 0.12:
            out.append({"op": "look", "fi": fi, "depth": rnd.choice([0, 1, 3])})
        elif k < 0.2:
            out.append({"op": "scopes", "fi": fi})
        elif k < 0.28:
            out.append({"op": "vars", "fi": fi, "scope": rnd.choice(scopes + ["result"])})
        elif k < 0.36:
            out.append({"op": "kid", "fi": fi, "scope": rnd.choice(scopes), "n": rnd.randrange(9), "start": rnd.choice([0, 0, 1, 2, 5]), "count": rnd.choice([0, 0, 1, 2, 9]), "filter": rnd.choice(["", "", "indexed", "named"])})
        elif k < 0.58:
            sc = rnd.choice(["opts", "opts", "task", "task", "host", "host", "glob"])
            nm = rnd.choice(["x", "y", "z", "new"]) if sc == "opts" else rnd.choice(list(prog["pv"]) + ["v_h", "v_k", "v_new", "v_u", "v_un"])
            out.append({"op": "set", "fi": fi, "scope": sc, "name": nm, "ast": rand_ast(rnd, prog)})
        elif k < 0.66:
            out.append({"op": "setin", "n": rnd.randrange(3), "name": rnd.choice(["a", "b", "7", "zz", "v x"]), "index": rnd.choice(["0", "1", "2", "9", "-1", "x"]), "ast": rand_ast(rnd, prog)})
        elif k < 0.76:
            out.append({"op": "eval", "fi": fi, "ast": rand_ast(rnd, prog), "ctx": rnd.choice(["watch", "repl", "clipboard", "variables"])})
        elif k < 0.86:
            c = rnd.choice(["so", "sh", "ro"])
            nm = rnd.choice(["x", "y", "new", "nothere"]) if c != "sh" else rnd.choice(["v_p", "v_h", "v_new", "v_u"])
            out.append({"op": "cmd", "fi": fi, "kind": c, "name": nm, "ast": None if c == "ro" else rand_ast(rnd, prog)})
        else:
            out.append({"op": rnd.choice(["stale-scopes", "stale-vars", "stale-vars", "stale-set", "stale-eval", "stale-cmd", "setagain"]), "n": rnd.randrange(40), "set": rnd.random() < 0.3})
    if rnd.random() < 0.6:
        for fi in range(rnd.choice([1, 1, 2, 3])):
            out.append({"op": "look", "fi": fi, "depth": rnd.choice([0, 0, 2])})
    return out


# ---------------------------------------------------------------- scripts from the model
def alphabet(names, opts, fi=(0,)):
    asts = [lit(5), lit(["p", {"q": 1}]), {"op": "var", "n": "v_p"}, BAD[0]]
    out = []
    for f in fi:
        out.append({"op": "look", "fi": f, "kind": ""})
        for a in asts:
            for sc in ("opts", "task", "host", "glob"):
                for nm in (opts if sc == "opts" else names):
                    out.append({"op": "set", "fi": f, "scope": sc, "name": nm, "ast": a, "kind": ""})
        for a in (asts[0], asts[2], BAD[1]):
            for c, nms in (("so", opts), ("sh", names)):
                for nm in nms:
                    out.append({"op": "cmd", "fi": f, "kind": c, "name": nm, "ast": a, "scope": ""})
        for nm in opts:
            out.append({"op": "cmd", "fi": f, "kind": "ro", "name": nm, "ast": BAD[0], "scope": ""})
    return out


MC = {
    "mc-hosts": ({"hosts": ["h1", "h2"], "pv": {"v_p": 1, "v_l": [1]}, "hv": {"h1": {"v_h": "one"}, "h2": {"v_h": "two"}}, "items": [
        V("a", {"x": "{{ v_p }}"}, {"v_k": 3}), V("b", {"x": "{{ v_h }}", "y": "{{ v_p }}"})]},
        [("h1", "a", []), ("h2", "a", []), ("h1", "b", []), ("h2", "b", [])], alphabet(["v_p", "v_h"], ["x", "new"])),
    "mc-include": ({"hosts": ["h1"], "pv": {"v_p": 1}, "hv": {"h1": {"v_h": 2}}, "items": [
        INC("i", 1, [V("a", {"x": "{{ v_p }}"}), V("b", {"x": "{{ v_h }}"})]), V("c", {"x": "{{ v_p }}"})]},
        [("h1", "i", []), ("h1", "a", [1]), ("h1", "b", [1]), ("h1", "c", [])], alphabet(["v_p"], ["x"], (0, 1))),
    "mc-undef": ({"hosts": ["h1"], "pv": {"v_p": 1}, "hv": {"h1": {"v_h": 2}}, "items": [
        V("a", {"x": "{{ v_u }}"}, ign=True), V("b", {"x": "{{ v_u }}"}, ign=True), V("c", {"x": "{{ v_p }}"})]},
        [("h1", "a", []), ("h1", "b", []), ("h1", "c", [])], alphabet(["v_u", "v_p"], ["x"])),
}


def script(beh, nstops):
    """Each change is followed by a look at everything."""
    out = [[] for _ in range(nstops)]
    for h in beh["hist"]:
        o = h["op"]
        q = out[h["at"] - 1]
        if o["op"] == "look":
            q.append({"op": "look", "fi": o["fi"]})
        else:
            q.append({**o, "ast": None} if o["kind"] == "ro" else o)
    for q in out:
        if q:
            q += [{"op": "look", "fi": 0, "again": False, "depth": 1}, {"op": "look", "fi": 0}, {"op": "look", "fi": 1}]
        else:
            q.append({"op": "look", "fi": 0, "which": ["task", "host"]})
        q += [{"op": "stale-scopes", "n": 0}, {"op": "stale-vars", "n": 3}, {"op": "stale-set", "n": 7}, {"op": "setagain"}, {"op": "stale-vars", "set": True}]
    return out


def model(rep, rnd, th):
    cs = []
    for n, (p, order, al) in MC.items():
        cs.append({"name": n, "prog": jd(p, "/x"), "order": [{"h": h, "task": t, "keep": k} for h, t, k in order], "alphabet": al})
    path = tlc.dump(cs, "vcases.json")
    res = tlc.must(tlc.run("VarsMC", env={"MC_CASES": path}, workers=6, timeout=600, mem="6g"), "VarsMC")
    rep.tlc(res)
    beh = tlc.prints(res, "BEH")
    rep.count("model_behaviours", len(beh))
    if th:
        small = tlc.dump([{**c, "alphabet": c["alphabet"][:: 2]} for c in cs], "vsmall.json")
        rep.tlc(tlc.must(tlc.run("VarsMC", env={"MC_CASES": small}, workers=6, timeout=900, mem="8g", constants={"MaxOps": 3, "Emit": "FALSE"}), "VarsMC deep"))
    return beh


# ---------------------------------------------------------------- the check
def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/{prop}")
    th = tier == "thorough"
    beh = model(rep, rnd, th)
    rnd.shuffle(beh)
    items = []
    for b in beh[:2500 if th else 260]:
        p, order, _ = MC[b["case"]]
        items.append({"prog": p, "name": b["case"], "script": script(b, len(order))})
    results = zyg.run_many(items, session, timeout=120, budget=250 if th else 60)
    judge(rep, prop, items, results, "model")
    rep.sample({"behaviour": beh[0]})
    names = list(PROGS)
    items = []
    for k in range(3000 if th else 260):
        if k % 2:
            n, p = f"random", rand_prog(rnd, k)
        else:
            n = names[k // 2 % len(names)]
            p = PROGS[n]
        items.append(scenario.vary(rnd, {"prog": p, "name": n, "seed": f"{seed}/{prop}/{k}"}, 0))
    for k in range(0, len(items), 600):
        part = items[k:k + 600]
        results = zyg.run_many(part, session, timeout=120, budget=max(5, (rep.left(620) if th else 70)))
        judge(rep, prop, part, results, "random")
    rep.sample({"session": {"name": items[0]["name"], "seed": items[0]["seed"], "first": rand_ops(random.Random(items[0]["seed"]), items[0]["prog"], 0)[:4]}})
    rep.assumptions += [
        "variables starting with v_ and module options are compared; Ansible's own (magic) variables only as far as the count of references goes",
        "options of one task changed at another host's stop: whether this host sees them is not settled (the tasks share them)",
        "values inside containers are changed through references to containers set before in the same stop",
        "options with more than one level of templating, None and strings that look like literals are not used",
    ]


def judge(rep, prop, items, results, kind):
    tr = []
    for k, (it, r) in enumerate(zip(items, results)):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        if "harness_error" in r:
            rep.broken(r, it["name"], {"item": it})
            continue
        tr.append({"id": str(k), "prog": jd(it["prog"], r["root"]), "events": r["events"]})
        rep.count("stops", r["stops"])
        rep.count("requests", r["reqs"])
    if not tr:
        return
    res = tlc.must(tlc.run("VarsTrace", env={"TRACES": tlc.dump(tr, "vtraces.json")}, workers=6, timeout=600, mem="6g"), "VarsTrace")
    rep.tlc(res)
    out = tlc.prints(res, "RES")
    if len(out) != len(tr):
        raise RuntimeError("VarsTrace did not finish every trace")
    rep.traces += len(out)
    by = {t["id"]: t for t in tr}
    for o in out:
        it = items[int(o["id"])]
        for v in [v for v in o["viol"] if v["rule"] in RULES[prop]][:1]:
            e = by[o["id"]]["events"][v["pos"] - 1]
            rep.viol(f"{v['rule']}:{e['e']}:{it['name']}", f"{v['info']} (event {v['pos']}: {str(e)[:300]})", {"kind": kind, "item": it, "viol": o["viol"]})
    return out


def replay(obj):
    r = zyg.run_many([obj["item"]], session, timeout=120)[0]
    if "events" not in r:
        return r
    tr = [{"id": "0", "prog": jd(obj["item"]["prog"], r["root"]), "events": r["events"]}]
    res = tlc.must(tlc.run("VarsTrace", env={"TRACES": tlc.dump(tr, "vtraces.json")}, workers=1, timeout=600), "VarsTrace")
    o = tlc.prints(res, "RES")[0]
    return {"viol": o["viol"], "events": [[n + 1, e] for n, e in enumerate(r["events"])][max(0, (o["viol"] or [{"pos": 6}])[0]["pos"] - 9):][:9]}
