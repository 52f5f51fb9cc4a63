"""C04: what the client is told about its breakpoints.

 1. TLC explores all orders of loading and setting (BreakpointsMC): with
    loading split into single lines for the overlap of the two threads, and by
    whole files for the behaviours that are replayed against the program;
 2. replays compare every response and every later state exactly;
 3. these and random sessions with several hosts and requests sent while tasks
    run are checked by TLC against BreakpointsTrace.
"""
from __future__ import annotations
import copy, os, random
from . import zyg, control, tlc, scenario, catalogue as cat, ck_control as ck
from .dapclient import Gone, Timeout

PRELOAD = True


def static_files(items):
    out = set()
    for it in items or []:
        k = it["k"]
        if k == "imp":
            out.add(f"f_{it['file']}.yml")
            out |= static_files(it.get("items"))
        elif k == "improle":
            out |= role_files(it)
        elif k == "blk":
            out |= static_files(it["b"]) | static_files(it["r"]) | static_files(it["a"])
    return out


def role_files(it):
    out = {f"roles/{it['role']}/tasks/main.yml"} | static_files(it.get("items"))
    if it.get("handlers"):
        out |= {f"roles/{it['role']}/handlers/main.yml"} | static_files(it["handlers"])
    return out


def lists(it):
    return [it[k] for k in ("b", "r", "a", "items", "handlers") if it.get(k)]


def units(prog):
    st = {"pb.yml"}
    dyn = []

    def walk(items):
        for it in items or []:
            if it["k"] == "inc" and "items" in it:
                dyn.append(sorted({f"f_{it['file']}.yml"} | static_files(it["items"])))
            if it["k"] == "incrole" and "items" in it:
                dyn.append(sorted(role_files(it)))
            for l in lists(it):
                walk(l)
    for p in prog["plays"]:
        for key in ("pre", "items", "post", "handlers"):
            st |= static_files(p.get(key))
            walk(p.get(key))
        for r in p.get("roles", []):
            st |= role_files(r)
            for l in lists(r):
                walk(l)
    return [sorted(st)] + [u for u in dyn if not set(u) <= st]


def anchored(prog):
    """A copy with a one-task import in front of every part that is loaded together."""
    prog = copy.deepcopy(prog)
    n = [0]

    def anchor():
        n[0] += 1
        return cat.P(f"anchor {n[0]}", 900 + n[0], [cat.T(f"anchor task {n[0]}")])

    def walk(items):
        for it in items or []:
            for key in ("out", "when", "only", "notify", "ign", "ignu", "run_once"):
                it.pop(key, None)
            for l in lists(it):
                walk(l)
            if it["k"] in ("inc", "incrole") and it.get("items"):
                it["items"].insert(0, anchor())
    for p in prog["plays"]:
        for key in ("pre", "items", "post", "handlers"):
            walk(p.get(key))
        for r in p.get("roles", []):
            walk(r.get("items"))
    prog["plays"][0].setdefault("pre", []).insert(0, anchor())
    prog["plays"][-1].setdefault("post", []).append(anchor())
    prog["hosts"] = ["h1"]
    for p in prog["plays"]:
        p.pop("hosts", None)
        p.pop("serial", None)
    return prog


def is_anchor(f):
    return f.startswith("f_9") and len(f) == len("f_900.yml")


def bp_session(item, out):
    """Replays one behaviour: sets at the anchors, everything else continued."""
    s = scenario.Session(out, item["prog"], item)
    s.start_playbook()
    s.start_adapter()
    T0 = 25
    st = {"hang": False, "crash": ""}
    obs = []
    view = {}

    def drain(c):
        while c.pos < len(c.inbox):
            see(c.inbox[c.pos])
            c.pos += 1

    def see(m):
        if m.get("event") == "breakpoint":
            b = m["body"]["breakpoint"]
            view[b["id"]] = state(b, None)

    def state(b, req):
        return [bool(b["verified"]), b["line"] if b.get("line") is not None else req, b["endLine"] if b.get("endLine") is not None else -1]

    def setbp(file, lines, mod):
        r = c.call("setBreakpoints", {"source": {"path": os.path.join(s.root, file)}, "sourceModified": mod,
                                      "breakpoints": [{"line": l} for l in lines]}, T0)
        L = (r.get("body") or {}).get("breakpoints", [])
        res = []
        for k, b in enumerate(L):
            x = state(b, lines[k] if k < len(lines) else 0)
            view[b["id"]] = x
            res.append([b["id"], x])
        return res

    try:
        if not s.wait_listen(40):
            raise Timeout()
        c = s.c
        c.call("initialize", {"adapterID": "a"}, T0)
        if not c.call("attach", {"address": f"uds://{s.sock}"}, T0).get("success"):
            raise RuntimeError("attach failed")
        while not any(m.get("event") == "initialized" for m in c.inbox):
            c.poll(T0)
        for f in item["anchors"]:
            setbp(f, [1], False)
        for x in item["sets"].get("1", []):
            obs.append(["set", setbp(*x)])
        c.call("setExceptionBreakpoints", {"filters": []}, T0)
        c.call("configurationDone", {}, T0)
        seen = set()
        n = 0
        while True:
            m = c.next(T0)
            see(m)
            if m.get("event") == "terminated":
                break
            if m.get("event") != "stopped":
                continue
            tid = m["body"]["threadId"]
            f = c.call("stackTrace", {"threadId": tid}, T0)["body"]["stackFrames"][0]
            p = os.path.relpath(f["source"]["path"], s.root)
            drain(c)
            if p in item["stages"] and p not in seen:
                seen.add(p)
                k = item["stages"][p]
                obs.append(["at", k, {str(a): b for a, b in view.items()}])
                for x in item["sets"].get(str(k), []):
                    obs.append(["set", setbp(*x)])
            n += 1
            c.call("continue", {"threadId": tid}, T0)
        c.request("disconnect", {})
        if s.wait_exit("da", T0) is None or s.wait_exit("pb", T0) is None:
            st["hang"] = True
    except Timeout:
        st["hang"] = True
    except Exception:
        import traceback
        st["crash"] = traceback.format_exc()[-1500:]
    finally:
        s.kill()
    log = s.read("pb.log")
    if "Unexpected Exception" in log or "Exception in thread" in log:
        st["crash"] += log[-1500:]
    return {"obs": obs, "state": st, "bptrace": control.bptrace(s, s.records(), item["units"])}


def cases(P, refs, rnd, nreq):
    out = []
    for n, prog in P.items():
        mk, size = ck.marks(prog)
        us = units(prog)
        order = []          # anchors in the order they are reached
        for e in refs[n]["events"]:
            if e["e"] == "start" and is_anchor(e["path"]) and e["path"] not in order:
                order.append(e["path"])
        loaded = [sorted(us[0])]
        stages = {}
        for a in order:
            now = set(loaded[-1])
            for u in us[1:]:
                if a in u:
                    now |= set(u)
            stages[a] = len(loaded) + 1
            loaded.append(sorted(now))
        files = [f for f in mk if not is_anchor(f) and mk[f]]
        ever = set(loaded[-1])
        files = [f for f in files if f in ever] or ["pb.yml"]
        reqs = []
        for k in range(nreq):
            f = files[k % len(files)] if k < len(files) else rnd.choice(files)
            ls = sorted({rnd.choice([0, 1, 1, rnd.randint(1, size[f] + 3), rnd.choice(mk[f])[0], rnd.choice(mk[f])[0] + 1]) for _ in range(rnd.choice([1, 2, 3, 4]))} - {0}) or [1]
            if rnd.random() < 0.15:
                ls = ls + [ls[0]]        # the same line twice
            if rnd.random() < 0.12:
                ls = []
            reqs.append({"file": f, "lines": ls, "mod": rnd.random() < 0.12, "from": 1})
        out.append({"name": n, "marks": {f: mk[f] for f in mk if not is_anchor(f)}, "stops": [[f for f in l if not is_anchor(f) and f in mk] for l in loaded],
                    "reqs": reqs, "stages": stages, "anchors": order, "units": us})
    return out


def judge(rep, items, results, kind):
    tr = []
    for k, r in enumerate(results):
        if r.get("skipped"):
            continue
        if "harness_error" in r:
            rep.broken(r, items[k]["name"], {"kind": kind, "item": items[k]})
            continue
        if not r.get("bptrace"):
            continue
        tr.append({"id": str(k), "events": r["bptrace"], "marks": items[k]["marks"]})
    res = tlc.must(tlc.run("BreakpointsTrace", env={"TRACES": tlc.dump(tr, "bptraces.json")}, workers=6, timeout=600, mem="6g"), "BreakpointsTrace")
    rep.tlc(res)
    out = tlc.prints(res, "RES")
    if len(out) != len(tr):
        raise RuntimeError("BreakpointsTrace did not finish every trace")
    rep.traces += len(out)
    for o in out:
        k = int(o["id"])
        rep.count("breakpoints_followed", o["bps"])
        for v in o["viol"][:1]:
            rep.viol(f"{v['rule']}:{items[k]['name']}", f"{v['info']} (event {v['pos']})", {"kind": kind, "item": items[k], "viol": o["viol"]})


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/C04")
    th = tier == "thorough"
    base = list(cat.FIXED) if th else ["plain", "gaps", "import-in-include", "nested-include", "nested-include-tail", "block-in-include", "include-in-block", "roles",
                                       "role-in-include", "play-roles", "handler-in-include", "two-plays", "three-deep", "rescue-in-include", "include-loop", "role-loop"]
    P = {n: anchored(cat.FIXED[n]) for n in base if not any(i["k"] == "meta" for p in cat.FIXED[n]["plays"] for i in p.get("items", []))}
    for i in range(40 if th else 8):
        P[f"random-{seed}-{i}"] = anchored(cat.random_program(f"bp/{seed}/{i}", 10))
    refs = ck.references(P, rep)
    cs = cases(P, refs, rnd, 6 if th else 4)
    cs = [c for c in cs if 2 <= len(c["stops"]) <= 7]
    path = tlc.dump(cs, "bpcases.json")
    # overlap of the two threads, smaller bounds
    few = tlc.dump([{**c, "reqs": c["reqs"][:3]} for c in rnd.sample(cs, len(cs))[:24 if th else 8] if len(c["stops"]) <= 4], "bpfew.json")
    res = tlc.must(tlc.run("BreakpointsMC", env={"MC_CASES": few}, workers=6, timeout=600, mem="6g", constants={"MaxSets": 2, "Split": "TRUE"}), "BreakpointsMC split")
    rep.tlc(res)
    res = tlc.must(tlc.run("BreakpointsMC", env={"MC_CASES": path}, workers=6, timeout=600, mem="6g", constants={"MaxSets": 3 if th else 2}), "BreakpointsMC")
    rep.tlc(res)
    beh = tlc.prints(res, "BEH")
    rep.count("model_behaviours", len(beh))
    by = {}
    for b in beh:
        by.setdefault(b["case"], []).append(b)
    for v in by.values():
        rnd.shuffle(v)
    chosen = []
    want = 1800 if th else 150
    while len(chosen) < want and any(by.values()):
        for k in list(by):
            if by[k]:
                chosen.append(by[k].pop())
    chosen = chosen[:want]
    items = []
    for b in chosen:
        c = cs[b["case"] - 1]
        sets = {}
        for h in b["hist"]:
            if h["op"] == "set":
                sets.setdefault(str(h["pos"]), []).append([h["file"], h["lines"], h["mod"]])
        items.append({"prog": P[c["name"]], "name": c["name"], "anchors": c["anchors"], "stages": c["stages"], "sets": sets, "units": c["units"],
                      "marks": ck.marks(P[c["name"]])[0]})
    for it in items:
        scenario.vary(rnd, it, 0.15)
    results = zyg.run_many(items, bp_session, timeout=120, budget=400 if th else 90)
    for b, it, r in zip(chosen, items, results):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        if "harness_error" in r:
            rep.broken(r, it["name"], {"kind": "bp", "item": it})
            continue
        rep.count("behaviours_replayed")
        d = compare(b, r)
        if d:
            rep.viol(f"{d[0]}:{it['name']}", d[1], {"kind": "bp", "item": it, "hist": b["hist"]})
    judge(rep, items, results, "bp")
    # sessions with several hosts, conditions and requests while tasks run
    P2 = ck.programs(base, 30 if th else 10, seed)
    names = list(P2)
    items2 = []
    for k in range(1200 if th else 110):
        n = names[k % len(names)]
        it = ck.random_session(rnd, n, P2[n], "C02")
        it["units"] = units(P2[n])
        it["marks"] = ck.marks(P2[n])[0]
        if rnd.random() < 0.5:
            for a in it["script"]:
                a["runbps"] = ck.edit(rnd, P2[n], {"conds": 0})
                a["burst"] = True
        items2.append(scenario.vary(rnd, it, 0.3))
    results2 = zyg.run_many(items2, control.session, timeout=120, budget=300 if th else 90)
    for it, r in zip(items2, results2):
        if not r.get("skipped") and "harness_error" not in r and (r["state"]["hang"] or r["state"]["crash"]):
            rep.viol(f"session-broke:{it['name']}", str(r["state"]), {"kind": "control", "item": it})
    judge(rep, items2, results2, "control")
    rep.sample({"behaviour": chosen[0]["hist"][:4]})
    rep.sample({"session": {k: items2[0][k] for k in ("name", "bps", "script")}})
    rep.assumptions += ["a file counts as loaded from the first task started in it (or in a file loaded together with it); between the include and that moment both states are accepted"]


def compare(b, r):
    if r["state"]["hang"] or r["state"]["crash"]:
        return "session-broke", str(r["state"])
    ids = {}
    k = 0
    O = r["obs"]
    for h in b["hist"]:
        if k >= len(O):
            return "missing-stop", f"{h} never came"
        o = O[k]
        k += 1
        if h["op"] == "set":
            if o[0] != "set" or len(o[1]) != len(h["lines"]):
                return "breakpoint-count", f"{h}: {o}"
            for i, x, w in zip(h["ids"], o[1], h["res"]):
                ids[i] = x[0]
                if h["mod"]:
                    if x[1][0]:
                        return "wrong-breakpoint-state", f"{h}: {o}"
                elif x[1] != [w["ver"], w["line"], w["end"]]:
                    return "wrong-breakpoint-state", f"set {h['file']} {h['lines']} at {h['pos']}: required {w}, got {x[1]}"
        else:
            if o[0] != "at" or o[1] != h["pos"]:
                return "missing-stop", f"stage {h['pos']} not reached: {o[:2]}"
            for t in h["told"]:
                got = o[2].get(str(ids[t["id"]]))
                w = t["st"]
                if got != [w["ver"], w["line"], w["end"]] and not (got and not got[0] and not w["ver"] and w["end"] == -1):
                    return "stale-breakpoint-state", f"at {h['pos']}: required {w}, last told {got}"
    return None


def replay(obj):
    f = bp_session if obj["kind"] == "bp" else control.session
    return zyg.run_many([obj["item"]], f, timeout=120)[0]
