"""Messages of the protocol keep every field (C15).

Codec.tla holds the tables of the protocol; TLC goes through every message and
the values its fields can have.  Each case is made with the real classes, written
by the real adapter connection and read back by it (and JSON made from the
specification is read); CodecTrace.tla judges what came out.
"""
from __future__ import annotations
import hashlib, json, random
from . import zyg, tlc

LEVEL = "model_checking"
ODD = ["\u00fc\u20ac", "a\r\n\r\nb", "\"", "\\", "\U0001f600", "{{ x }}", " ", "null", "0", "\x00", "a/b", "'", "\u2028", "true", "None"]


def num(key):
    return int(hashlib.sha1(key.encode()).hexdigest()[:7], 16) + 2


class Maker:
    """Concrete values for the classes of the specification, and back to trees."""

    def __init__(self, schema, seed):
        self.types, self.messages, self.seed = schema["types"], schema["messages"], seed

    def atom(self, f, c, path):
        if "#" not in c:
            return json.loads(c)
        kind = c.rsplit("#", 1)[1]
        key = f"{self.seed}/{path}/{f['a']}/{kind}"
        n = num(key)
        k = f["k"]
        if kind == "neg":
            return -n
        if kind == "odd":
            return ODD[n % len(ODD)] + f["a"] + ODD[n // 31 % len(ODD)]
        if kind == "tree":
            return [{"a": [n, None, True, 1.5], "": {}}, [n, [], [None]], {"body": {"restart": 1}}][n % 3]
        if kind == "map":
            return [{"A": f"{n}", "b c": "", "x": "y=z"}, {"": f"{n}"}, {"PATH": "/a:/b", "é": "ü"}][n % 3]
        if k in ("int", "ints"):
            return n
        if k == "any":
            return [n, f"t{n}", True, 1.25][n % 4]
        if k == "map":
            return {f"k{n}": f"v{n}"}
        return f"{f['a']}-{n}"

    def values(self, fs, v, path=""):
        """Tree of classes (attributes) -> plain values."""
        out = {}
        for f in fs:
            out[f["a"]] = self.value(f, v[f["a"]], path)
        return out

    def value(self, f, x, path):
        if x["k"] == "obj":
            return self.values(self.types[f["t"]], x["f"], path + "/" + f["a"])
        if x["k"] == "list":
            if f["k"] == "objs":
                return [self.values(self.types[f["t"]], e["f"], f"{path}/{f['a']}{i}") for i, e in enumerate(x["s"])]
            return [self.atom(f, e["c"], path) for e in x["s"]]
        return self.atom(f, x["c"], path)

    def json(self, fs, j, path="", rnd=None):
        """Tree of classes (protocol names) -> JSON, with what has to be ignored thrown in."""
        out = []
        j = j if isinstance(j, dict) else {}
        for f in fs:
            if f["j"] not in j:
                if rnd and rnd.random() < 0.3:
                    out.append((f["j"], None))
                elif f["d"]["k"] != "none" and False:
                    pass
                continue
            x = j[f["j"]]
            if x["k"] == "obj":
                y = self.json(self.types[f["t"]], x["f"], path + "/" + f["a"], rnd)
            elif x["k"] == "list" and f["k"] == "objs":
                y = [self.json(self.types[f["t"]], e["f"], f"{path}/{f['a']}{i}", rnd) for i, e in enumerate(x["s"])]
            elif x["k"] == "list":
                y = [self.atom(f, e["c"], path) for e in x["s"]]
            else:
                y = self.atom(f, x["c"], path)
                d = f["d"]
                if rnd and d.get("k") == "atom" and d["c"] == x["c"] and rnd.random() < 0.4:
                    continue    # its default: may as well be left out
            if rnd and x["k"] == "list" and not x["s"] and f["d"]["k"] == "list" and rnd.random() < 0.4:
                continue
            out.append((f["j"], y))
        if rnd:
            if rnd.random() < 0.4:
                out.append((rnd.choice(["x-other", "_private", "extra", f["a"] if f["a"] not in {g["j"] for g in fs} else "zz"]),
                            rnd.choice([None, 1, "s", {"a": 1}, [1]])))
            rnd.shuffle(out)
        return dict(out)

    # real objects
    def make(self, dap, t, vals, fs, rnd):
        kw = {}
        for f in fs:
            v = vals[f["a"]]
            if f["d"]["k"] != "none" and self.is_default(f, v) and rnd.random() < 0.5:
                continue
            kw[f["a"]] = self.real(dap, f, v, t, rnd)
        return kw

    def is_default(self, f, v):
        d = f["d"]
        return v == ([] if d["k"] == "list" else json.loads(d["c"])) and type(v) is type([] if d["k"] == "list" else json.loads(d["c"]))

    def real(self, dap, f, v, t, rnd):
        if v is None:
            return None
        if f["k"] == "obj":
            return getattr(dap, f["t"])(**self.make(dap, f["t"], v, self.types[f["t"]], rnd))
        if f["k"] == "objs":
            return [getattr(dap, f["t"])(**self.make(dap, f["t"], e, self.types[f["t"]], rnd)) for e in v]
        if t == "StoppedEvent" and f["a"] == "reason":
            return dap.StoppedReason(v)
        return v

    # trees of what there is
    def tree_of_values(self, fs, vals):
        return {f["a"]: self.tv(f, vals[f["a"]]) for f in fs}

    def tv(self, f, v):
        if v is not None and f["k"] == "obj":
            return {"k": "obj", "f": self.tree_of_values(self.types[f["t"]], v)}
        if v is not None and f["k"] == "objs":
            return {"k": "list", "s": [{"k": "obj", "f": self.tree_of_values(self.types[f["t"]], e)} for e in v]}
        if f["k"] in ("strs", "ints") and isinstance(v, list):
            return {"k": "list", "s": [canon(e) for e in v]}
        return canon(v)

    def tree_of_object(self, fs, o):
        import enum
        out = {}
        for f in fs:
            v = getattr(o, f["a"], "?missing?")
            if isinstance(v, enum.Enum):
                v = v.value
            out[f["a"]] = self.to(f, v)
        return out

    def to(self, f, v):
        if f["k"] == "obj" and v is not None:
            if type(v).__name__ != f["t"]:
                return canon(f"?{type(v).__name__}?")
            return {"k": "obj", "f": self.tree_of_object(self.types[f["t"]], v)}
        if f["k"] == "objs" and isinstance(v, list):
            return {"k": "list", "s": [{"k": "obj", "f": self.tree_of_object(self.types[f["t"]], e)} if type(e).__name__ == f["t"] else canon(f"?{type(e).__name__}?") for e in v]}
        if f["k"] in ("strs", "ints") and isinstance(v, list):
            return {"k": "list", "s": [canon(e) for e in v]}
        return canon(v)

    def tree_of_json(self, fs, j):
        if not isinstance(j, dict):
            return canon(j)
        out = {"_": {"k": "atom", "c": "x"}}
        by = {f["j"]: f for f in fs}
        for k, v in j.items():
            if v is None:
                continue
            f = by.get(k)
            if f and f["k"] == "obj":
                out[k] = self.tree_of_json(self.types[f["t"]], v)
            elif f and f["k"] == "objs" and isinstance(v, list):
                out[k] = {"k": "list", "s": [self.tree_of_json(self.types[f["t"]], e) for e in v]}
            elif f and f["k"] in ("strs", "ints") and isinstance(v, list):
                out[k] = {"k": "list", "s": [canon(e) for e in v]}
            else:
                out[k] = canon(v)
        return {"k": "obj", "f": out}


def canon(v):
    try:
        return {"k": "atom", "c": json.dumps(v, sort_keys=True)}
    except TypeError:
        return {"k": "atom", "c": f"?{v!r}?"}


def write(dap, obj):
    c = dap.DebugAdapterConnection()
    c.queue_msg(obj)
    return json.loads(c.data_to_send().split(b"\r\n\r\n", 1)[1].decode())


def read(dap, j):
    c = dap.DebugAdapterConnection()
    d = json.dumps(j).encode()
    c.receive_data(b"Content-Length: %d\r\n\r\n" % len(d) + d)
    return c.next_message()


FREE = [{}, {"address": "tcp://h:1", "connectTimeout": 2.5, "tlsVerification": "ignore"}, {"playbook": "p", "args": ["a b", "", "$x"], "env": {"A": None, "B": "c"}},
        {"x": [1, {"y": None}], "": 0, "restart": 5, "no_debug": 1}, {"arguments": {"a": 1}, "body": {}}]


def body_tree(mk, m, j):
    key = "arguments" if m["type"] == "request" else "body"
    if key not in j or j[key] is None:
        return {"k": "atom", "c": "absent"}
    return mk.tree_of_json(mk.types[m["fs"][0]["t"]] if m["in"] == "whole" else m["fs"], j[key])


def free_tree(free):
    return {"k": "obj", "f": {"_": {"k": "atom", "c": "x"}, **{k: canon(v) for k, v in free.items() if v is not None}}}


def record(dap, mk, n, m, vals, obj, packed, back, info, free):
    key = "event" if m["type"] == "event" else "command"
    t = {"kind": "case", "n": n, "v": mk.tree_of_values(m["fs"], vals) if m["fs"] else {"_": canon(0)}, "top": [k for k, v in packed.items() if v is not None],
         "hasmsg": bool(info.get("message")), "cmd": info.get("cmd", ""),
         "head": {"type": packed.get("type", ""), "word": packed.get(key, ""), "success": packed.get("success", True)},
         "body": body_tree(mk, m, packed), "free": free_tree(free)}
    bn = type(back).__name__
    kept = bn == n and back.seq == 1
    if kept and m["type"] == "response":
        kept = back.request_seq == info["request_seq"] and back.success is (n != "ErrorResponse")
        if n == "ErrorResponse":
            kept = kept and back.command == dap.Command(info["cmd"]) and back.message == info["message"]
        else:
            kept = kept and back.command == dap.Command(m["word"])
    elif kept:
        kept = (back.command == dap.Command(m["word"])) if m["type"] == "request" else (back.event == dap.EventType(m["word"]))
    t["kept"] = bool(kept)
    t["back"] = {"n": bn, "v": mk.tree_of_object(m["fs"], back) if bn == n and m["fs"] else {"_": canon(0)}, "free": free_tree({k: v for k, v in (getattr(back, "arguments", None) or {}).items()}) if m["in"] == "free" else free_tree({})}
    return t


def cases(item, out):
    from ansibug import dap
    schema = item["schema"]
    recs, errs = [], []
    for k, (n, v, j) in enumerate(item["cases"]):
        rnd = random.Random(f"{item['seed']}/{k}")
        mk = Maker(schema, f"{item['seed']}/{k}")
        m = schema["messages"][n]
        fs = m["fs"]
        try:
            vals = mk.values(fs, v) if fs else {}
            info, free = {}, {}
            kw = mk.make(dap, n, vals, fs, rnd)
            if m["type"] == "response":
                info["request_seq"] = rnd.choice([0, 1, 2, 77, 2 ** 31])
                kw["request_seq"] = info["request_seq"]
            if n == "ErrorResponse":
                info["cmd"] = rnd.choice(item["words"])
                info["message"] = rnd.choice([None, "", "why", "\u00fc\n"])
                kw.update(command=dap.Command(info["cmd"]), message=info["message"])
                info["hasmsg"] = info["message"] is not None
            if m["in"] == "free":
                free = rnd.choice(FREE)
                kw["arguments"] = dict(free)
            obj = getattr(dap, n)(**kw)
            packed = write(dap, obj)
            r = record(dap, mk, n, m, vals, obj, packed, read(dap, packed), info, free)
            r["hasmsg"] = info.get("message") is not None
            r["id"] = f"{item['base']}:{k}:out"
            recs.append(r)
            if obj.seq == 1 and not (read(dap, packed) == obj):
                errs.append([n, f"{obj!r} was read back as {read(dap, packed)!r}"[:900]])
            if j is None:
                continue
            # JSON as the specification has it
            key = "arguments" if m["type"] == "request" else "body"
            js = {"seq": 1, "type": m["type"], ("event" if m["type"] == "event" else "command"): info.get("cmd") or m["word"]}
            if m["type"] == "response":
                js.update(request_seq=info["request_seq"], success=n != "ErrorResponse")
                if n == "ErrorResponse" and info["message"] is not None:
                    js["message"] = info["message"]
            if fs:
                if m["in"] == "whole":
                    js["body"] = mk.json(schema["types"][fs[0]["t"]], j["f"]["body"]["f"], "/" + fs[0]["a"], rnd)
                else:
                    js[key] = mk.json(fs, j["f"], "", rnd if m["in"] != "free" else None)
                    if m["in"] == "free":
                        js[key] = {**js[key], **json.loads(json.dumps(free))}
            if (rnd.random() < 0.4):
                js[rnd.choice(["x-top", "extra"])] = rnd.choice([1, None, {"seq": 9}])
            js = dict(rnd.sample(list(js.items()), len(js)))
            r2 = record(dap, mk, n, m, vals, obj, packed, read(dap, js), info, free)
            r2["hasmsg"] = info.get("message") is not None
            r2["id"] = f"{item['base']}:{k}:in"
            r2["json"] = js
            recs.append(r2)
        except Exception as e:
            errs.append([n, f"{type(e).__name__}: {e} for {v}"[:900]])
    return {"recs": recs, "errs": errs}


def kinds(item, out):
    from ansibug import dap
    recs = []
    for i, (ty, word, ok, body) in enumerate(item["kinds"]):
        js = {"seq": 1, "type": ty, ("event" if ty == "event" else "command"): word}
        js["arguments" if ty == "request" else "body"] = body
        if ty == "response":
            js.update(request_seq=3, success=ok)
        try:
            m = read(dap, js)
            is_ = type(m).__name__ if m is not None else ""
        except Exception:
            is_ = ""
        recs.append({"kind": "kind", "id": f"kind:{i}", "type": ty, "word": word, "success": ok, "is": is_})
    return {"recs": recs, "errs": []}


def random_value(rnd, types, fs, depth):
    out = {}
    for f in fs:
        r = rnd.random()
        if f["d"]["k"] != "none" and r < 0.4:
            out[f["a"]] = f["d"]
            continue
        A = lambda c: {"k": "atom", "c": f"{f['a']}#{c}"}
        at = lambda c: {"k": "atom", "c": c}
        k = f["k"]
        if k == "int":
            x = rnd.choice([at("0"), A("A"), A("neg")])
        elif k == "str":
            x = rnd.choice([at('""'), A("A"), A("odd")])
        elif k == "bool":
            x = at(rnd.choice(["true", "false"]))
        elif k == "word":
            x = at(json.dumps(rnd.choice(f["t"])))
        elif k == "any":
            x = rnd.choice([at("0"), at("false"), A("A"), A("tree")])
        elif k == "map":
            x = rnd.choice([at("{}"), A("map")])
        elif k in ("strs", "ints"):
            x = {"k": "list", "s": [A(rnd.choice("ABCD")) for _ in range(rnd.choice([0, 1, 3]))]}
        elif k == "obj":
            x = {"k": "obj", "f": random_value(rnd, types, types[f["t"]], depth - 1)}
        else:
            x = {"k": "list", "s": [{"k": "obj", "f": random_value(rnd, types, types[f["t"]], depth - 1)} for _ in range(rnd.choice([0, 1, 2, 4]) if depth > 0 else 0)]}
        out[f["a"]] = x
    return out


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/C15")
    th = tier == "thorough"
    res = tlc.must(tlc.run("CodecMC", workers=4, timeout=300), "CodecMC")
    rep.tlc(res)
    schema = tlc.prints(res, "SCHEMA")[0]
    cs = [(c["n"], c["v"], c["j"]) for c in tlc.prints(res, "CASE")]
    rep.count("cases", len(cs))
    words = sorted({m["word"] for m in schema["messages"].values() if m["type"] != "event" and m["word"]})
    evs = sorted({m["word"] for m in schema["messages"].values() if m["type"] == "event"})
    for rounds in range(6 if th else 1):
        extra = []
        for n in sorted(schema["messages"]):
            fs = schema["messages"][n]["fs"]
            for _ in range(150 if th else 40):
                if fs:
                    extra.append((n, random_value(rnd, schema["types"], fs, 2), None))
        al = cs + extra
        per = 300
        items = [{"schema": schema, "words": words, "cases": al[i:i + per], "base": i, "seed": f"{seed}/{rounds}/{i}"} for i in range(0, len(al), per)]
        ks = []
        full = {n: next((c for c in cs if c[0] == n), None) for n in schema["messages"]}
        legal = {"arguments": {"threadId": 1, "frameId": 1, "variablesReference": 1, "expression": "x", "adapterID": "a", "name": "n", "value": "v", "source": {"path": "p"}},
                 "body": {"reason": "step", "threadId": 1, "result": "r", "value": "v", "exitCode": 0, "breakpoint": {"id": 1}, "category": "c", "output": "o"}}
        for ty in ("request", "response", "event", "Request", "", "message"):
            for w in words + evs + ["x", "", "Attach", "attach ", "error", "pause", "stopped", "None", "module", "process"]:
                for ok in ((True, False) if ty == "response" else (True,)):
                    b = dict(legal["arguments" if ty == "request" else "body"])
                    if ty == "event" and w == "thread":
                        b["reason"] = "started"
                    ks.append((ty, w, ok, b))
        results = zyg.run_many(items, cases, timeout=200)
        kr = zyg.run_many([{"kinds": ks}], kinds, timeout=200)
        recs, where = [], {}
        for it, r, kind in [(i, r, "cases") for i, r in zip(items, results)] + [({"kinds": ks}, kr[0], "kinds")]:
            if "harness_error" in r:
                rep.broken(r, kind, {"kind": kind, "item": it})
                continue
            for n, e in r["errs"]:
                rep.viol(f"error:{n}", e, {"kind": kind, "item": {**it, "cases": [c for c in it.get("cases", []) if c[0] == n][:60]} if kind == "cases" else it})
            for x in r["recs"]:
                where[x["id"]] = (it, x)
                recs.append(x)
        rep.count("records", len(recs))
        for i in range(0, len(recs), 4000):
            part = recs[i:i + 4000]
            res = tlc.must(tlc.run("CodecTrace", env={"TRACES": tlc.dump([{k: v for k, v in x.items() if k != "json"} for x in part], "ctraces.json")}, workers=1, timeout=400, mem="6g"), "CodecTrace")
            rep.tlc(res)
            if tlc.prints(res, "DONE") != [len(part)]:
                raise RuntimeError("CodecTrace did not judge every record")
            rep.traces += len(part)
            for o in tlc.prints(res, "RES"):
                it, x = where[o["id"]]
                for b in o["bad"]:
                    if x["kind"] == "kind":
                        rep.viol(f"kind:{x['type']}:{x['word']}:{x['success']}", json.dumps(x), {"kind": "kinds", "item": {"kinds": [(x["type"], x["word"], x["success"], {})]}})
                    else:
                        k = int(o["id"].split(":")[1])
                        rep.viol(f"{b}:{x['n']}", json.dumps({y: x[y] for y in ("v", "head", "top", "body", "back", "json") if y in x})[:1800],
                                 {"kind": "cases", "item": {**it, "cases": it["cases"][k:k + 1]}})
    rep.sample({"case": cs[len(cs) // 2][:2]})
    rep.assumptions += ["null and an absent member are the same JSON; unions are sampled with the kinds of values named in the tables."]


def replay(obj):
    return zyg.run_many([obj["item"]], {"cases": cases, "kinds": kinds}[obj["kind"]], timeout=120)[0]
