"""C01 C02 C03 C05 C06 C07 C21: the client's control over a running play.

 1. reference runs record what Ansible does without the debugger;
 2. TLC explores every client script over these plays (ControlMC) and prints
    each behaviour with the stops the specification requires;
 3. a sample of the behaviours is replayed against the real program, every stop
    compared; random sessions add edits, conditions, foreign requests, timing;
 4. every session is checked by TLC against ControlTrace, event by event.
"""
from __future__ import annotations
import json, os, random
from . import zyg, control, tlc, scenario, catalogue as cat

RULES = {
    "progress-while-stopped": "C01", "second-stop": "C01", "ended-while-stopped": "C01", "session-hang": "*", "crash": "*",
    "missed-breakpoint": "C02", "spurious-breakpoint": "C02", "wrong-breakpoint-id": "C02", "step-with-breakpoint-id": "C02",
    "missed-step": "C03", "spurious-step": "C03",
    "breakpoint-id-reused": "C04", "event-for-unset-breakpoint": "C04",
    "missed-exception": "C05", "spurious-exception": "C05", "exception-description": "C05", "exception-message": "C05",
    "module-result": "C05",
    "thread-not-announced": "C06", "thread-not-exited": "C06", "stop-of-unknown-thread": "C06", "exit-of-unknown-thread": "C06",
    "unexpected-thread": "C06", "thread-missing": "C06", "thread-name": "C06", "thread-id-reused": "C06", "thread-announced-twice": "C06",
    "thread-exit-while-stopped": "C06",
    "wrong-stack": "C07", "frame-id-reused": "C07", "frame-id-changed": "C07", "wrong-total-frames": "C07", "frame-of-other-host": "C07",
    "stop-without-task": "*",
    "differs-from-plain-run": "C21", "exit-code": "C21",
}
FILTERS = ["on_error", "on_unreachable", "on_skipped"]

CONDS = {
    "inventory_hostname == 'h1'": {"h1": True, "*": False},
    "inventory_hostname != 'h1'": {"h1": False, "*": True},
    "false": {"*": False},
    "true": {"*": True},
    "no_such_variable": {"*": False},
    "1 ==": {"*": False},
    "no_such_variable is not defined": {"*": True},
    "1 > 2 or inventory_hostname in ['h2']": {"h2": True, "*": False},
}


def programs(names=None, nrandom=0, seed=0, size=9):
    P = {n: cat.FIXED[n] for n in (names or cat.FIXED)}
    for i in range(nrandom):
        P[f"random-{seed}-{i}"] = cat.random_program(f"{seed}/{i}", size)
    return P


def references(P, rep, **opts):
    names = list(P)
    rs = zyg.run_many([{"prog": P[n], **opts} for n in names], control.reference)
    out = {}
    for n, r in zip(names, rs):
        if "harness_error" in r:
            raise RuntimeError(f"reference run of {n}: {r['harness_error']}")
        if r["rc"] is None or r["rc"] not in (0, 2, 4):
            raise RuntimeError(f"reference run of {n} ended with {r['rc']}: {r['log']}")
        out[n] = r
    rep.count("reference_runs", len(names))
    return out


def marks(prog):
    from .program import Writer
    import tempfile, shutil
    d = tempfile.mkdtemp(dir=zyg.SCRATCH)
    w = Writer(d, prog)
    w.write()
    shutil.rmtree(d)
    return w.marks, {k: len(v) for k, v in w.files.items()}


def bpsets(rnd, prog, n, conds=False, everywhere=False):
    """Breakpoint requests: the first task's line always, others at random lines."""
    mk, size = marks(prog)
    first = next((f, l) for f in ["pb.yml"] + sorted(mk) for l, t in mk[f] if t == 1 and (f, l) != ("pb.yml", 1))
    out = []
    for i in range(n):
        L = [first] if i % 2 == 0 or n == 1 else []
        files = [f for f in mk if mk[f]]
        for _ in range(rnd.choice([0, 1, 1, 2, 3])):
            f = rnd.choice(files)
            if rnd.random() < 0.7:
                l = rnd.choice(mk[f])[0]
            else:
                l = rnd.randint(1, size[f] + 2)
            L.append((f, l))
        if everywhere and i == n - 1:
            L = [(f, l) for f in files for l, t in mk[f]]
        seen = {}
        for k, (f, l) in enumerate(L):
            c = rnd.choice(list(CONDS)) if conds and rnd.random() < 0.5 else None
            seen.setdefault(f, []).append({"line": l, "k": k + 1, **({"cond": c} if c else {})})
        out.append([{"file": f, "lines": x} for f, x in seen.items()])
    return out, mk


def mc_config(rnd, n, prog, ref, nb, filters, conds):
    sets, mk = bpsets(rnd, prog, nb, conds)
    return {"name": n, "events": [e for e in ref["events"] if e["e"] in ("start", "end", "endmeta", "play", "playend")],
            "marks": mk,
            "bps": [[{"k": x["k"], "path": b["file"], "req": x["line"], "cond": CONDS[x["cond"]] if x.get("cond") else {"*": True}}
                     for b in s for x in b["lines"]] for s in sets],
            "filters": filters}, sets


def model_behaviours(rep, P, refs, rnd, nb, filters, conds, maxres, kinds, liveness=False, timeout=600, workers=6):
    cfgs, sets = [], []
    for n in P:
        f = filters(rnd) if callable(filters) else filters
        c, s = mc_config(rnd, n, P[n], refs[n], nb, f, conds)
        cfgs.append(c)
        sets.append(s)
    path = tlc.dump(cfgs, "mc.json")
    res = tlc.must(tlc.run("ControlMC", env={"MC_PROGRAMS": path}, workers=workers, timeout=timeout, mem="8g",
                           cfg="ControlMC.cfg" if liveness else "ControlSafe.cfg",
                           constants={"MaxResumes": maxres, "Kinds": "{" + ", ".join('"%s"' % k for k in kinds) + "}"}), "ControlMC")
    rep.tlc(res)
    beh = tlc.prints(res, "BEH")
    for b in beh:
        b["name"] = cfgs[b["prog"] - 1]["name"]
        b["bps"] = sets[b["prog"] - 1][b["cfg"][0] - 1]
        b["filters"] = cfgs[b["prog"] - 1]["filters"][b["cfg"][1] - 1]
    rep.count("model_behaviours", len(beh))
    return beh


SHORT = {"continue": "c", "continueAll": "C", "next": "n", "stepIn": "i", "stepOut": "o"}


def replay_item(P, b):
    script = [SHORT[x["c"]] for x in b["hist"] if "c" in x]
    return {"prog": P[b["name"]], "bps": b["bps"], "filters": list(b["filters"]), "script": script, "rest": "c", "conds": CONDS,
            "want_recs": True, "maxstops": 200, "name": b["name"]}


def compare(b, r):
    """First difference between the stops required and those observed: (rule, text) or None."""
    want = [x for x in b["hist"] if "s" in x]
    got = r["stops"]
    for k in range(max(len(want), len(got))):
        w = want[k] if k < len(want) else None
        g = got[k] if k < len(got) else None
        if g is None:
            if r["state"]["hang"] or r["state"]["crash"]:
                return None
            return {"step": "missed-step", "breakpoint": "missed-breakpoint", "exception": "missed-exception"}[w["s"]], f"stop {k + 1}: required {short(w)}, never came"
        if w is None:
            return {"step": "spurious-step", "breakpoint": "spurious-breakpoint"}.get(g["s"], "spurious-exception"), f"stop {k + 1}: {g} was not required"
        top = (g.get("stack") or [["", "", 0]])[0]
        same = w["s"] == g["s"] and w["h"] == g.get("h") and [w["name"], w["path"], w["line"]] == top
        if not same:
            kinds = {w["s"], g["s"]}
            rule = ("missed-exception" if w["s"] == "exception" else "spurious-exception") if "exception" in kinds else \
                ("missed-step" if w["s"] == "step" else "spurious-step") if "step" in kinds else "missed-breakpoint"
            return rule, f"stop {k + 1}: required {short(w)}, got {g}"
        if [list(x) for x in w["stack"]] != g["stack"]:
            return "wrong-stack", f"stop {k + 1}: required stack {w['stack']}, got {g['stack']}"
        if w["s"] == "breakpoint" and (not g["bps"] or not set(g["bps"]) <= set(w["bps"])):
            return "wrong-breakpoint-id", f"stop {k + 1}: required some of {w['bps']}, got {g['bps']}"
    return None


def short(w):
    return {k: w[k] for k in ("s", "h", "name", "path", "line")}


def what_ran(recs):
    return [{k: v for k, v in r.items() if k != "cov"} for r in recs if r["e"] not in ("endmeta",)]


def judge(rep, prop, items, results, refs, names):
    """TLC over all traces, plus the comparison with the plain run."""
    traces = []
    for k, r in enumerate(results):
        if r is None or r.get("skipped"):
            continue
        if "harness_error" in r:
            rep.broken(r, names[k], {"item": items[k]})
            continue
        traces.append({"id": str(k), "events": r["events"]})
    if not traces:
        return
    res = tlc.must(tlc.run("ControlTrace", env={"TRACES": tlc.dump(traces, "traces.json")}, workers=6, mem="8g", timeout=800), "ControlTrace")
    rep.tlc(res)
    out = tlc.prints(res, "RES")
    if len(out) != len(traces):
        raise RuntimeError("ControlTrace did not finish every trace")
    rep.traces += len(out)
    for o in out:
        rep.count("stops", o["stops"])
        k = int(o["id"])
        for v in o["viol"]:
            p = RULES.get(v["rule"], "*")
            if p in ("*", prop):
                rep.viol(f"{v['rule']}:{items[k].get('name')}", f"{v['info']} (event {v['pos']}) state={results[k]['state']} log={results[k]['log'][-300:]}",
                         {"kind": "control", "item": items[k], "viol": o["viol"][:10]})
                break
    if prop == "C21":
        for k, r in enumerate(results):
            if r is None or r.get("skipped") or not r.get("recs") or r["state"]["hang"] or r["state"]["crash"]:
                continue
            ref = refs[names[k]]
            a, b = what_ran(ref["recs"]), what_ran(r["recs"])
            if items[k].get("perhost"):
                a, b = by_host(a), by_host(b)
            rep.count("compared_with_plain_run")
            if a != b:
                d = next((x for x in zip(a, b) if x[0] != x[1]), (len(a), len(b)))
                rep.viol(f"differs-from-plain-run:{names[k]}", str(d)[:800], {"kind": "control", "item": items[k]})
            elif ref["rc"] != r["pb"]:
                rep.viol(f"exit-code:{names[k]}", f"plain run ended with {ref['rc']}, debugged with {r['pb']}", {"kind": "control", "item": items[k]})


def by_host(recs):
    out = {}
    for r in recs:
        out.setdefault(r.get("h", ""), []).append(r)
    return sorted(out.items())


# ---------------------------------------------------------------- sessions

def random_session(rnd, n, prog, prop):
    hosts = len(prog["hosts"])
    w = {"C01": dict(edit=0.15, dwell=0.1, foreign=0.25, burst=0.6, noinspect=0.35, others=0.2, scopes=0.2, runbps=0.1, conds=0.1),
         "C02": dict(edit=0.4, dwell=0, foreign=0.05, burst=0.3, noinspect=0.05, others=0, scopes=0.05, runbps=0.25, conds=0.6),
         "C03": dict(edit=0.1, dwell=0, foreign=0.05, burst=0.3, noinspect=0.05, others=0, scopes=0.02, runbps=0.02, conds=0.2),
         "C05": dict(edit=0.1, dwell=0, foreign=0.05, burst=0.3, noinspect=0.05, others=0, scopes=0.7, runbps=0, conds=0.1),
         "C06": dict(edit=0.1, dwell=0.03, foreign=0.2, burst=0.4, noinspect=0.1, others=0.3, scopes=0.05, runbps=0.05, conds=0.1),
         "C07": dict(edit=0.1, dwell=0, foreign=0.1, burst=0.3, noinspect=0, others=0.7, scopes=0.2, runbps=0, conds=0.1),
         "C21": dict(edit=0.2, dwell=0.02, foreign=0.1, burst=0.4, noinspect=0.2, others=0.2, scopes=0.3, runbps=0.1, conds=0.3)}[prop]
    sets, mk = bpsets(rnd, prog, 4, conds=rnd.random() < w["conds"], everywhere=True)
    bps = rnd.choice(sets)
    script = []
    style = rnd.choice(["mixed", "mixed", "steps", "run"])
    for _ in range(rnd.randint(2, 14)):
        a = {"cmd": rnd.choice({"mixed": "cCnnio", "steps": "nnio", "run": "ccCn"}[style])}
        if rnd.random() < w["edit"]:
            a["bps"] = edit(rnd, prog, w)
        if rnd.random() < w["edit"]:
            a["filters"] = rnd.sample(FILTERS, rnd.randint(0, 3))
        if rnd.random() < w["dwell"]:
            a["dwell"] = rnd.choice([5, 30, 80])
        if rnd.random() < w["foreign"] and hosts > 1:
            a["foreign"] = rnd.choice("cnio")
        if rnd.random() < w["runbps"]:
            a["runbps"] = edit(rnd, prog, w)
        for k in ("burst", "noinspect", "others", "scopes"):
            if rnd.random() < w[k]:
                a[k] = True
        if a["cmd"] == "c" and rnd.random() < 0.4:
            a["single"] = True
        script.append(a)
    fl = rnd.choice([[], ["on_error"], FILTERS, rnd.sample(FILTERS, rnd.randint(0, 3))])
    return {"prog": prog, "name": n, "bps": bps, "filters": fl, "script": script, "rest": rnd.choice("cCn"), "conds": CONDS,
            "threads_always": rnd.random() < 0.3, "det": rnd.random() < 0.5, "want_recs": prop == "C21", "perhost": True}


def edit(rnd, prog, w):
    s, mk = bpsets(rnd, prog, 1, conds=rnd.random() < w["conds"])
    out = s[0]
    if rnd.random() < 0.3 and out:
        out = [rnd.choice(out)]
    if rnd.random() < 0.25:
        f = rnd.choice(list(mk))
        out = [b for b in out if b["file"] != f] + [{"file": f, "lines": []}]
    if rnd.random() < 0.1 and out:
        out[0] = {**out[0], "modified": True}
    return out


BASE = {
    "C01": ["plain", "nested-include", "handlers", "include-some", "two-plays", "rescue-some", "refresh", "fail-host", "skips"],
    "C02": ["plain", "import-in-include", "gaps", "include-in-block", "roles", "include-some", "include-twice", "handlers", "two-plays", "role-loop",
            "handler-in-include", "play-roles", "rescue-some", "same-names"],
    "C03": ["nested-include", "nested-include-tail", "block-in-include", "import-in-include", "import-top", "roles", "role-in-include", "handler-in-include",
            "include-loop", "three-deep", "include-last", "fail-in-include", "rescue-in-include", "play-roles", "include-some", "flush-in-include", "include-in-block", "same-names"],
    "C05": ["ignored", "ignored-some", "unreach", "skips", "rescue", "rescue-some", "fail-in-rescue", "fail-in-always", "nested-rescue", "always-only", "fail-in-include-rescued",
            "fail-in-include", "rescue-in-include", "undefined", "undefined-arg", "fail-handler", "include-missing-when", "task-loop", "any-errors-fatal", "fail-all"],
    "C06": ["two-plays", "serial", "serial2", "refresh", "end-host", "end-play", "end-batch", "fail-host", "run-once", "include-some", "any-errors-fatal", "clear-errors"],
    "C07": ["nested-include", "nested-include-tail", "three-deep", "include-last", "role-in-include", "roles", "include-loop", "role-loop", "include-some",
            "block-in-include", "import-in-include", "handler-in-include", "flush-in-include", "fail-in-include", "rescue-in-include", "play-roles", "refresh", "same-names"],
    "C21": list(cat.FIXED),
}


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/{prop}")
    thorough = tier == "thorough"
    nr = 40 if thorough else 8
    P = programs(BASE[prop] if not thorough else None, nr, seed)
    refs = references(P, rep)
    allf = [[], ["on_error"], FILTERS]

    def filters(r):
        if prop == "C05":
            return [FILTERS, ["on_error"], ["on_unreachable"], ["on_skipped"]] if not thorough else \
                [[f for k, f in enumerate(FILTERS) if m >> k & 1] for m in range(8)]
        if prop == "C03":
            return [[], FILTERS]
        if prop == "C21":
            return [[], FILTERS]
        return [r.choice(allf)]
    kinds = ["continue", "next", "stepIn", "stepOut"]
    nb = 4 if thorough else 3 if prop == "C02" else 2
    maxres = {"C05": 1, "C02": 2, "C21": 1}.get(prop, 3) + (1 if thorough else 0)
    PM = P if thorough or len(P) < 30 else {n: P[n] for n in rnd.sample(list(P), 26)}
    if thorough:
        # the exhaustive exploration keeps to plays of bounded length
        PM = {n: P[n] for n in P if len(refs[n]["events"]) <= 70}
    if prop in ("C01", "C03", "C21"):
        kinds.append("continueAll")
    beh = model_behaviours(rep, PM, refs, rnd, nb, filters, prop in ("C02", "C21"), maxres, kinds, liveness=thorough and prop == "C01")
    # every distinct sequence of stops first, then others
    byname = {}
    for b in beh:
        byname.setdefault(b["name"], []).append(b)
    for v in byname.values():
        rnd.shuffle(v)
        v.sort(key=lambda b: -len({json.dumps(x, sort_keys=True) for x in b["hist"]}) // 4)
    nrep = 2500 if thorough else 170
    chosen = []
    while len(chosen) < nrep and any(byname.values()):
        for n in list(byname):
            if byname[n]:
                v = byname[n]
                chosen.append(v.pop(0 if rnd.random() < 0.5 else rnd.randrange(len(v))))
    chosen = chosen[:nrep]
    items = [scenario.vary(rnd, replay_item(P, b), 0.2) for b in chosen]
    n0 = len(items)
    nses = 3000 if thorough else 170
    names = list(P)
    for k in range(nses):
        n = names[k % len(names)] if k < 2 * len(names) else rnd.choice(names)
        items.append(scenario.vary(rnd, random_session(rnd, n, P[n], prop), 0.6 if prop == "C01" else 0.3))
    if prop == "C21":
        # real forked workers, and nobody attached at all
        for n in rnd.sample(names, len(names) if thorough else 12):
            items.append({"prog": P[n], "name": n, "inline": False, "bps": bpsets(rnd, P[n], 1)[0][0], "filters": FILTERS, "script": [], "rest": "n",
                          "want_recs": True, "perhost": True, "conds": CONDS, "maxstops": 100})
    results = zyg.run_many(items, control.session, timeout=120, budget=600 if thorough else 120)
    skipped = sum(1 for r in results if r.get("skipped"))
    if skipped:
        rep.count("skipped_for_time", skipped)
    for b, it, r in zip(chosen, items, results):
        if r.get("skipped") or "harness_error" in r:
            continue
        rep.count("behaviours_replayed")
        d = compare(b, r)
        if d and RULES.get(d[0], "*") in ("*", prop):
            rep.viol(f"{d[0]}:{b['name']}", d[1], {"kind": "control", "item": it, "hist": b["hist"]})
    if prop == "C05":
        for it, r in zip(items, results):
            for st in r.get("stops", []) if not r.get("skipped") else []:
                if "scopes" in st:
                    has = "Module Result" in st["scopes"]
                    if has != (st["s"] == "exception") or (has and not st.get("result")):
                        rep.viol(f"module-result:{it['name']}", str(st)[:500], {"kind": "control", "item": it})
    judge(rep, prop, items, results, refs, [i["name"] for i in items])
    for b in chosen[:2]:
        rep.sample({"program": b["name"], "behaviour": b["hist"][:6]})
    it = items[n0 + 1] if len(items) > n0 + 1 else items[-1]
    rep.sample({"session": {k: it[k] for k in ("name", "bps", "filters", "script")}})
    rep.assumptions += [
        "tasks are executed inside the strategy's process (an in-process stand-in for Ansible's forked worker); C21 also runs real workers",
        "what Ansible does is recorded on Ansible's own StrategyBase methods, which the debug strategy extends",
    ]


def replay(obj):
    r = zyg.run_many([obj["item"]], control.session, timeout=120)[0]
    res = tlc.run("ControlTrace", env={"TRACES": tlc.dump([{"id": "0", "events": r["events"]}], "t.json")})
    return {"stops": r["stops"], "state": r["state"], "viol": tlc.prints(res, "RES")}
