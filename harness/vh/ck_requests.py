"""Every kind of request in every phase of a play (part of C12): Requests.tla against the real playbook."""
from __future__ import annotations
import json, time
from . import zyg, tlc, scenario, control, ck_control as ck
from .catalogue import T, I, one
from .dapclient import Gone, Timeout

T0 = 12.0
PROGS = {
    3: (one([T("a"), T("b"), I("i", 1, [T("c"), T("d")]), T("e"), T("f")], vars={"v_a": "x", "v_l": [1, 2]}), ["a", "c", "f"]),
    4: (one([T("a"), T("b", notify="k"), T("c"), T("d")], ("h1", "h2"), handlers=[T("k")], vars={"v_a": "x", "v_l": [1, 2]}), ["b", "d"]),
}


def ask(c, ids):
    """The request of a class, with the ids of now."""
    un = ids["unknown"]
    f, old = ids["frame"], ids["oldframe"]
    return {
        "threads": ("threads", {}), "stack": ("stackTrace", {"threadId": ids["tid"]}), "stack-main": ("stackTrace", {"threadId": 1}),
        "stack-unknown": ("stackTrace", {"threadId": un}), "scopes": ("scopes", {"frameId": f}), "scopes-unknown": ("scopes", {"frameId": un}),
        "scopes-stale": ("scopes", {"frameId": old}), "vars": ("variables", {"variablesReference": ids["ref"]}),
        "vars-unknown": ("variables", {"variablesReference": un}), "vars-stale": ("variables", {"variablesReference": ids["oldref"]}),
        "eval": ("evaluate", {"expression": "v_a ~ 'y'", "frameId": f, "context": "watch"}),
        "eval-stale": ("evaluate", {"expression": "v_a", "frameId": old, "context": "watch"}),
        "set": ("setVariable", {"variablesReference": ids["ref"], "name": "v_a",  "value": "'z'"}),
        "set-unknown": ("setVariable", {"variablesReference": un, "name": "v_a",  "value": "'z'"}),
        "set-badvalue": ("setVariable", {"variablesReference": ids["ref"] or un, "name": "v_a", "value": "{{ no_such_var_x }}"}),
        "continue-unknown": ("continue", {"threadId": un, "singleThread": True}), "next-unknown": ("next", {"threadId": un}),
        "stepIn-unknown": ("stepIn", {"threadId": un}), "stepOut-unknown": ("stepOut", {"threadId": un}),
        "setbps": ("setBreakpoints", {"source": {"path": ids["file"]}, "breakpoints": ids["bps"], "lines": [b["line"] for b in ids["bps"]]}),
        "setexc": ("setExceptionBreakpoints", {"filters": ids["filters"]}), "confdone": ("configurationDone", {}),
        "unsupported": (ids["unsupported"], {}), "initialize": ("initialize", {"adapterID": "ansibug"}), "attach": ("attach", {"address": "uds:///nowhere"}),
    }[c]


LOCAL = {"unsupported"}       # answered by the adapter itself


def session(item, out):
    import os, random
    rnd = random.Random(item["seed"])
    s = scenario.Session(out, item["prog"], item)
    bad, hang = [], ""
    ids = {"unknown": 0, "frame": 0, "oldframe": 0, "tid": 0, "ref": 0, "oldref": 0, "filters": [], "unsupported": "pause"}
    n = 0
    try:
        s.start_playbook()
        if not s.wait_listen():
            return {"bad": [], "hang": "listen", "log": s.read("pb.log")[-800:], "recs": [], "rc": None, "n": 0}
        s.start_adapter()
        c = s.c
        c.call("initialize", {"adapterID": "ansibug"}, T0)
        if not c.call("attach", {"address": f"uds://{s.sock}"}, T0).get("success"):
            return {"bad": ["attach failed"], "hang": "", "log": s.read("da.log")[-800:], "recs": [], "rc": None, "n": 0}
        while not any(m.get("event") == "initialized" for m in c.inbox):
            c.poll(T0)
        ids["file"] = os.path.join(s.root, "pb.yml")
        ids["bps"] = item["bps"]
        for x in item["setup"]:
            a = {"source": {"path": os.path.join(s.root, x["file"])}, "breakpoints": x["lines"], "lines": [l["line"] for l in x["lines"]]}
            c.call("setBreakpoints", a, T0)

        def burst(g):
            sent = []
            for r in g["reqs"]:
                ids["unknown"] = rnd.choice([0, -1, 2 ** 31 - 1, 2 ** 53, 99999, 5 ** 9])
                ids["unsupported"] = rnd.choice(["pause", "source", "x", "restart", "goto"])
                cmd, args = ask(r["c"], ids)
                sent.append((r, cmd, c.request(cmd, args)))
            return sent

        def collect(sent, phase):
            nonlocal n
            order = []
            for r, cmd, seq in sent:
                try:
                    m = c.wait_response(seq, T0)
                except Timeout:
                    bad.append(f"{phase}: {r['c']} was not answered")
                    continue
                except Gone:
                    bad.append(f"{phase}: the adapter was gone before {r['c']} was answered")
                    continue
                n += 1
                ok = bool(m.get("success"))
                if m.get("command") != cmd:
                    bad.append(f"{phase}: the response to {cmd} says {m.get('command')}")
                if not ok and not m.get("message"):
                    bad.append(f"{phase}: error response to {r['c']} without a message")
                if r["want"] != "any" and ok != (r["want"] == "ok"):
                    bad.append(f"{phase}: {r['c']} gave {'success' if ok else 'error ' + str(m.get('message'))[-200:]}, required {r['want']}")
            ins = [m for _, d, m in c.log if d == "in" and m.get("type") == "response"]
            seqs = [q for r, _, q in sent if r["c"] not in LOCAL]
            got = [m["request_seq"] for m in ins if m.get("request_seq") in seqs]
            # what the adapter answers for a playbook that left may overtake
            if phase in ("pre", "stop") and got != seqs and not any("not answered" in b for b in bad):
                bad.append(f"{phase}: responses out of order: {got} for {seqs}")

        first = True
        ended = False
        pend = []
        for g in item["hist"]:
            ph = g["phase"]
            if ph == "pre":
                collect(burst(g), ph)
                c.call("configurationDone", {}, T0)
            elif ph == "stop":
                while True:
                    m = c.next(T0)
                    if m.get("event") == "stopped":
                        break
                    if m.get("event") == "terminated":
                        raise Timeout
                collect(pend, "run")
                pend = []
                ids["oldframe"], ids["oldref"] = ids["frame"] or 77777, ids["ref"] or 77777
                ids["tid"] = m["body"]["threadId"]
                st = c.call("stackTrace", {"threadId": ids["tid"]}, T0)
                ids["frame"] = st["body"]["stackFrames"][0]["id"]
                sc = c.call("scopes", {"frameId": ids["frame"]}, T0)
                ids["ref"] = [x["variablesReference"] for x in sc["body"]["scopes"] if x["name"] == "Task Variables"][0]
                collect(burst(g), ph)
            elif ph == "run":
                if rnd.random() < 0.5:
                    c.call("continue", {"threadId": ids["tid"], "singleThread": True}, T0)
                else:
                    # after the last stop the playbook may be gone before it has answered
                    pend.append(({"c": "resume", "want": "ok" if g["at"] < item["stops"] else "any"}, "continue", c.request("continue", {"threadId": ids["tid"], "singleThread": True})))
                pend += burst(g)
            else:
                while c.next(T0).get("event") != "terminated":
                    pass
                collect(pend, "run")
                pend = []
                if s.wait_exit("pb", T0) is None:
                    hang = "playbook"
                collect(burst(g), ph)
        c.request("disconnect", {})
        if s.wait_exit("da", T0) is None:
            hang = hang or "adapter"
        if s.wait_exit("pb", T0) is None:
            hang = "playbook"
        try:
            while c.poll(0.2):
                pass
        except Gone:
            pass
        ins = [m for _, d, m in c.log if d == "in" and m.get("type") == "response"]
        outs = [m["seq"] for _, d, m in c.log if d == "out"]
        for q in outs:
            k = sum(1 for m in ins if m.get("request_seq") == q)
            if k != 1 and not any("not answered" in b for b in bad):
                bad.append(f"request {q} has {k} responses")
        if any(m.get("request_seq") not in outs for m in ins):
            bad.append("a response without a request")
    except Timeout:
        hang = hang or "no stop where one was required"
    except Gone:
        bad.append("the adapter closed its output early")
    finally:
        s.kill()
    log = s.read("pb.log")
    return {"bad": bad, "hang": hang, "n": n, "rc": s.poll_pb(), "log": (log[-900:] + s.read("da.log")[-500:]) if bad or hang else "",
            "recs": control.compact(s.records(), s.root)}


def run(rep, rnd, th, seed):
    full = tlc.must(tlc.run("Requests", "RequestsAll.cfg", workers=4), "Requests")
    rep.tlc(full)
    refs = {}
    items = []
    for stops, (prog, marks) in PROGS.items():
        res = tlc.must(tlc.run("Requests", constants={"Stops": stops}, workers=1, timeout=300,
                               extra=("-simulate", f"num={1500 if th else 70}", "-depth", "90", "-seed", str(rnd.randrange(10 ** 9)))), "Requests")
        beh = tlc.prints(res, "BEH")
        sets, mk = ck.bpsets(rnd, prog, 3, everywhere=True)
        ref = zyg.run_many([{"prog": prog}], control.reference)[0]
        if "harness_error" in ref:
            raise RuntimeError(ref["harness_error"])
        refs[stops] = ref
        where = {}
        for t in ref["recs"]:
            if t["e"] == "start" and t["name"] in marks:
                where[t["name"]] = (t["path"].rsplit(":", 1)[0], int(t["path"].rsplit(":", 1)[1]))
        setup = {}
        for nme in marks:
            f, l = where[nme]
            setup.setdefault(f, []).append({"line": l})
        for k, b in enumerate(beh):
            items.append({"prog": prog, "stops": stops, "hist": b, "seed": f"{seed}/{stops}/{k}", "bps": setup.get("pb.yml", []),
                          "setup": [{"file": f, "lines": l} for f, l in setup.items()], "delay": rnd.random() if rnd.random() < 0.25 else None})
    rnd.shuffle(items)
    results = zyg.run_many(items, session, timeout=120, budget=300 if th else 60)
    for it, r in zip(items, results):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        rp = {"kind": "requests", "item": it}
        if "harness_error" in r:
            rep.broken(r, "requests", rp)
            continue
        rep.traces += 1
        rep.count("phase_requests", r["n"])
        for b in r["bad"]:
            rep.viol(f"request:{b.split(' gave ')[0][:80]}", b + " log=" + r["log"], rp)
        if r["hang"]:
            rep.viol(f"request-hang:{r['hang']}", r["log"], rp)
        elif not r["bad"]:
            ref = refs[it["stops"]]
            if ck.what_ran(r["recs"]) != ck.what_ran(ref["recs"]) or r["rc"] != ref["rc"]:
                rep.viol("request:play-affected", f"exit code {r['rc']} instead of {ref['rc']}, {len(r['recs'])} of {len(ref['recs'])} records", rp)
    rep.sample({"requests": items[0]["hist"][:3]})


def replay(obj):
    return zyg.run_many([obj["item"]], session, timeout=120)[0]
