"""Drives debug sessions from scenarios and turns the recordings into traces."""
from __future__ import annotations
import json, os, time
from . import scenario
from .dapclient import Gone, Timeout

CMD = {"c": "continue", "C": "continue", "n": "next", "i": "stepIn", "o": "stepOut"}


def session(item, out):
    """Run one scenario; returns {"events": [...], "stops": [...], ...}.

    item: prog, bps [{file, lines:[{line, cond?}], modified?}], filters,
      script [action...] (one per stop), rest (default action), maxstops
      action: {"cmd": "c|n|i|o", "bps": [...], "filters": [...], "dwell": ms,
               "foreign": cmd-for-another-thread, "noinspect": bool, "burst": bool,
               "others": bool, "scopes": bool, "eval": [...], "single": bool,
               "runbps": [...]  (set once the resume was sent), "twice": bool}
      conds: {condition text: {host|"*": bool}}
    """
    s = scenario.Session(out, item["prog"], item)
    s.start_playbook()
    s.start_adapter()
    T0 = item.get("timeout", 25)
    state = {"natural": True, "hang": False, "crash": "", "stage": "setup"}
    stops = []
    bpk = {}

    def setbps(b):
        src = {"path": os.path.join(s.root, b["file"])}
        bl = []
        for x in b["lines"]:
            d = {"line": x["line"]}
            if x.get("cond"):
                d["condition"] = x["cond"]
            bl.append(d)
        a = {"source": src, "breakpoints": bl, "lines": [x["line"] for x in b["lines"]]}
        if b.get("modified"):
            a["sourceModified"] = True
        return a

    def note(b, r):
        for x, y in zip(b["lines"], (r.get("body") or {}).get("breakpoints", [])):
            bpk[y.get("id")] = x.get("k")

    try:
        if not s.wait_listen(40):
            raise Timeout()
        c = s.c
        r = scenario.attach_and_configure(s, [setbps(b) for b in item.get("bps", [])], item.get("filters", []), T0)
        if isinstance(r, dict):
            raise RuntimeError("attach failed: %r" % r)
        for b, x in zip(item.get("bps", []), r):
            note(b, x)
        state["stage"] = "run"
        n = 0
        script = item.get("script", [])
        names = {}
        while True:
            m = c.next(T0)
            if m.get("event") == "terminated":
                break
            if m.get("event") == "thread" and item.get("threads_always"):
                c.request("threads")
            if m.get("event") != "stopped":
                continue
            tid = m["body"].get("threadId")
            act = script[n] if n < len(script) else item.get("rest", "c")
            if isinstance(act, str):
                act = {"cmd": act}
            n += 1
            if n > item.get("maxstops", 40):
                # clear everything and let it run to the end
                for f in {b["file"] for b in item.get("bps", [])} | {b["file"] for a in script if isinstance(a, dict) for b in a.get("bps", []) + a.get("runbps", [])}:
                    c.call("setBreakpoints", setbps({"file": f, "lines": []}), T0)
                c.call("setExceptionBreakpoints", {"filters": []}, T0)
                act = {"cmd": "c", "noinspect": True}
            info = {"tid": tid, "s": m["body"]["reason"], "bps": [bpk.get(x) for x in m["body"].get("hitBreakpointIds") or []]}
            stops.append(info)
            names = {}
            if not act.get("noinspect"):
                th = c.call("threads", {}, T0)
                # the threads of now: earlier plays' and exited ones are not asked for
                names = {t["id"]: t["name"] for t in (th.get("body") or {}).get("threads", [])}
                stt = c.call("stackTrace", {"threadId": tid}, T0)
                info["stack"] = [[f["name"], os.path.relpath(f["source"]["path"], s.root) if f.get("source") else "", f["line"]]
                                 for f in (stt.get("body") or {}).get("stackFrames", [])]
                info["h"] = names.get(tid, "?")
                if act.get("others"):
                    for o in sorted(names):
                        if o != tid:
                            c.call("stackTrace", {"threadId": o}, T0)
                fid = ((stt.get("body") or {}).get("stackFrames") or [{}])[0].get("id")
                if act.get("scopes") and fid is not None:
                    sc = c.call("scopes", {"frameId": fid}, T0)
                    info["scopes"] = [x["name"] for x in (sc.get("body") or {}).get("scopes", [])]
                    if "Module Result" in info["scopes"]:
                        ref = [x["variablesReference"] for x in sc["body"]["scopes"] if x["name"] == "Module Result"][0]
                        v = c.call("variables", {"variablesReference": ref}, T0)
                        info["result"] = {x["name"]: x["value"] for x in (v.get("body") or {}).get("variables", [])}
                for ex in act.get("eval", []):
                    c.call("evaluate", {"expression": ex, "frameId": fid, "context": "repl"}, T0)
            for b in act.get("bps", []):
                note(b, c.call("setBreakpoints", setbps(b), T0))
            if "filters" in act:
                c.call("setExceptionBreakpoints", {"filters": act["filters"]}, T0)
            if act.get("dwell"):
                end = time.monotonic() + act["dwell"] / 1000
                while time.monotonic() < end:
                    c.poll(end - time.monotonic())
            if act.get("foreign") and len(names) > 2:
                o = [x for x in sorted(names) if x != tid and names[x] != "main"][0]
                a = {"threadId": o}
                if act["foreign"] == "c":
                    a["singleThread"] = True
                c.call(CMD[act["foreign"]], a, T0)
                end = time.monotonic() + 0.04
                while time.monotonic() < end:
                    c.poll(end - time.monotonic())
            a = {"threadId": tid}
            if act["cmd"] == "C":
                a["singleThread"] = False
            elif act.get("single"):
                a["singleThread"] = True
            if act.get("burst"):
                c.request(CMD[act["cmd"]], a)
            else:
                c.call(CMD[act["cmd"]], a, T0)
            for b in act.get("runbps", []):
                note(b, c.call("setBreakpoints", setbps(b), T0))
        state["stage"] = "end"
        c.request("disconnect", {})
        if s.wait_exit("da", T0) is None:
            state["hang"] = True
            state["stage"] = "adapter exit"
        if s.wait_exit("pb", T0) is None:
            state["hang"] = True
            state["stage"] = "playbook exit"
    except Timeout:
        state["hang"] = True
        state["natural"] = False
    except Gone:
        state["crash"] = "adapter closed its output early"
        state["natural"] = False
    except Exception:  # an answer the protocol does not allow
        import traceback
        state["crash"] = "session broke off: " + traceback.format_exc()[-1200:]
        state["natural"] = False
    finally:
        s.kill()
    log, da = s.read("pb.log"), s.read("da.log")
    if "Unexpected Exception" in log or "Exception in thread" in log:
        state["crash"] = "playbook: " + log[-1500:]
    elif "Exception in thread" in da:
        state["crash"] = "adapter: " + da[-1500:]
    elif not state["hang"] and s.poll_da() not in (0, None):
        state["crash"] = f"adapter exit code {s.poll_da()}"
    recs = s.records()
    ev = to_trace(s, recs, item, state)
    return {"events": ev, "stops": stops, "state": state, "pb": s.poll_pb(), "da": s.poll_da(),
            "log": log[-3000:] if (state["hang"] or state["crash"]) else "", "seq_ok": s.c.seq_ok if s.c else True,
            "recs": compact(recs, s.root) if item.get("want_recs") else None,
            "bptrace": bptrace(s, recs, item["units"]) if item.get("units") else None}


def bptrace(s, recs, units):
    """What the client was told about breakpoints, against what was loaded when.

    units: [[files loaded together], ...]; the first one is loaded from the start.
    """
    L = [[0, {"e": "load", "file": f}] for f in units[0]]
    starts = [(r["t"], r, split_loc(r["path"], s.root)[0]) for r in recs if r["e"] == "start"]
    incs = [t for t, r, f in starts if r["inc"]]
    for u in units[1:]:
        first = next(((t, r) for t, r, f in starts if f in u), None)
        if first:
            parents = [t for t, r, f in starts if r["u"] in {c[0] for c in first[1]["chain"]}]
            may = max([x for x in parents if x < first[0]] or [first[0]])
            if len(first[1]["chain"]) and parents:
                may = min([t for t, r, f in starts if r["u"] == first[1]["chain"][0][0]] or [may])
        else:
            may = min(incs, default=None)
        for f in u:
            if may is not None:
                L.append([may, {"e": "may", "file": f}])
            if first:
                L.append([first[0], {"e": "load", "file": f}])
    pend = {}
    for t, d, m in (s.c.log if s.c else []):
        if d == "out" and m.get("command") == "setBreakpoints":
            pend[m["seq"]] = m["arguments"]
            L.append([t, {"e": "req", "n": m["seq"], "file": os.path.relpath(m["arguments"]["source"]["path"], s.root)}])
        elif d == "in" and m.get("type") == "response" and m.get("request_seq") in pend and m.get("success"):
            a = pend[m["request_seq"]]
            L.append([t, {"e": "resp", "n": m["request_seq"], "file": os.path.relpath(a["source"]["path"], s.root), "src": a["source"]["path"],
                          "mod": bool(a.get("sourceModified")), "reqs": [b["line"] for b in a["breakpoints"]],
                          "bps": [{"id": b["id"], "ver": bool(b["verified"]), "line": b.get("line") or 0, "end": b["endLine"] if b.get("endLine") is not None else -1,
                                   "src": (b.get("source") or {}).get("path", "")} for b in m["body"]["breakpoints"]]}])
        elif d == "in" and m.get("event") == "breakpoint":
            b = m["body"]["breakpoint"]
            L.append([t, {"e": "chg", "id": b["id"], "ver": bool(b["verified"]), "line": b.get("line") or 0,
                          "end": b["endLine"] if b.get("endLine") is not None else -1}])
        elif d == "in" and m.get("event") in ("stopped", "terminated"):
            L.append([t, {"e": "sync"}])
    L.sort(key=lambda z: z[0])
    return [x for _, x in L]


def compact(recs, root):
    """What Ansible did, without run-specific values."""
    out = []
    for r in recs:
        x = {k: v.replace(root, "ROOT") if isinstance(v, str) else v for k, v in r.items() if k not in ("t", "u", "chain")}
        if x.get("path"):
            x["path"] = r["path"]
        if "path" in x:
            x["path"] = os.path.relpath(x["path"], root) if x["path"] else ""
        out.append(x)
    return out


def split_loc(p, root):
    if not p:
        return "", 0
    f, l = p.rsplit(":", 1)
    return os.path.relpath(f, root), int(l)


def reference(item, out):
    """Run the playbook without any debugger; returns what Ansible did."""
    from . import runner, zyg
    s = scenario.Session(out, item["prog"], item)
    log = os.open(os.path.join(out, "pb.log"), os.O_CREAT | os.O_WRONLY)

    def go():
        from ansible import constants as C
        C.config  # plain linear strategy and no callback plugin
        C.DEFAULT_STRATEGY = "linear"
        C.CALLBACKS_ENABLED = []
        import ansible.playbook.play
        ansible.playbook.play.Play.__dict__
        from ansible.playbook.play import Play
        Play.fattributes["strategy"].default = "linear"
        return runner.run_playbook(["-i", os.path.join(s.root, "inv.ini"), os.path.join(s.root, "pb.yml")],
                                   s.trace, inline=item.get("inline", True), det=item.get("det", True))
    s.pb_pid = zyg.fork_child(go, stdin=s.null, stdout=log, stderr=log, env={"TMPDIR": out}, cwd=s.root)
    rc = s.wait_exit("pb", 30)
    s.kill()
    recs = s.records()
    t = to_trace(s, recs, item, None)
    return {"events": t, "recs": compact(recs, s.root), "rc": rc, "log": s.read("pb.log")[-3000:]}


def to_trace(s, recs, item, state):
    root = s.root
    L = []
    starts = {}
    for r in recs:
        e = r["e"]
        if e == "start":
            f, l = split_loc(r["path"], root)
            x = {"e": "start", "h": r["h"], "u": r["u"], "path": f, "line": l, "name": r["name"],
                 "chain": [c[0] for c in r["chain"]], "inc": r["inc"], "meta": r["meta"], "stopped": False}
            starts[(r["h"], r["u"])] = x
        elif e == "end":
            i = starts.get((r["h"], r["u"]), {"inc": False, "name": "?", "e": "none"})
            x = {"e": "end", "h": r["h"], "u": r["u"], "failed": r["failed"], "unreach": r["unreach"], "skipped": r["skipped"],
                 "ign": r["ign"], "ignu": r["ignu"], "cov": r["cov"], "inc": i["inc"], "name": i["name"], "inst": i, "msg": r["msg"]}
        elif e == "endmeta":
            x = {"e": "endmeta", "h": r["h"], "u": r["u"], "raw": r.get("raw") or ""}
        elif e in ("play", "playend"):
            x = {"e": e}
        else:
            continue
        L.append([r["t"], x])
    if s.c is None:
        return [x for _, x in L]
    # While a play is certainly running: between its first and its last task.
    spans, cur = [], None
    for r in recs:
        if r["e"] == "play":
            cur = None
        elif r["e"] in ("start", "end", "endmeta"):
            if cur is None:
                cur = [r["t"], r["t"]]
                spans.append(cur)
            cur[1] = r["t"]
    stop_t = [t for t, d, m in s.c.log if d == "in" and m.get("event") == "stopped"]
    res_t = [t for t, d, m in s.c.log if d == "out" and m.get("command") in ("continue", "next", "stepIn", "stepOut", "disconnect", "terminate")]

    def in_play(a, b):
        last = max([x for x in stop_t if x <= a], default=None)
        if last is not None and not any(last < x < b for x in res_t):
            return True     # the play is stopped
        return any(x < a and b < y for x, y in spans)

    names = {}
    pend = {}
    setreq = {}
    chg = []
    conds = item.get("conds", {})
    def moving(k, t, asked):
        """Threads whose event was just on its way when the list was made."""
        ids = [m2["body"]["threadId"] for t2, d2, m2 in s.c.log[:k] if t2 >= asked and d2 == "in" and m2.get("event") == "thread"]
        for t2, d2, m2 in s.c.log[k + 1:]:
            if t2 > t + 500_000_000 or m2.get("event") in ("stopped", "terminated"):
                break
            if d2 == "in" and m2.get("event") == "thread":
                ids.append(m2["body"]["threadId"])
        return ids

    for k, (t, d, m) in enumerate(s.c.log):
        if d == "out" and m.get("type") == "request":
            pend[m["seq"]] = (t, m)
            if m["command"] == "setBreakpoints":
                setreq[m["seq"]] = {"e": "setbpreq", "src": "", "modified": False, "bps": []}
                L.append([t, setreq[m["seq"]]])
            if m["command"] in ("continue", "next", "stepIn", "stepOut"):
                a = m.get("arguments") or {}
                L.append([t, {"e": "resume", "kind": m["command"], "tid": a.get("threadId", 0), "single": bool(a.get("singleThread", True))}])
        elif d == "in":
            b = m.get("body") or {}
            if m.get("type") == "response":
                rq = pend.get(m.get("request_seq"), (0, {}))[1]
                a = rq.get("arguments") or {}
                if not m.get("success"):
                    if rq.get("command") in ("stackTrace", "threads", "setBreakpoints") and in_play(pend[m["request_seq"]][0], t):
                        L.append([t, {"e": "outcome", "hang": False, "crash": True, "natural": False,
                                      "info": "request failed: %s %s" % (rq.get("command"), str(m.get("message"))[-400:])}])
                    continue
                if rq.get("command") == "threads":
                    for x in b.get("threads", []):
                        names[x["id"]] = x["name"]
                    L.append([t, {"e": "threads", "list": [{"id": x["id"], "name": x["name"]} for x in b.get("threads", [])], "moving": moving(k, t, pend[m["request_seq"]][0])}])
                elif rq.get("command") == "stackTrace":
                    L.append([t, {"e": "stack", "tid": a.get("threadId"),
                                  "frames": [{"id": f["id"], "name": f["name"], "line": f["line"],
                                              "path": os.path.relpath(f["source"]["path"], root) if f.get("source") else ""} for f in b.get("stackFrames", [])],
                                  "total": b.get("totalFrames", len(b.get("stackFrames", [])))}])
                elif rq.get("command") == "setBreakpoints":
                    src = a["source"]["path"]
                    bl = []
                    for q, x in zip(a["breakpoints"], b.get("breakpoints", [])):
                        bl.append({"id": x["id"], "ver": bool(x["verified"]), "line": x.get("line") or 0,
                                   "end": x["endLine"] if x.get("endLine") is not None else -1,
                                   "src": src, "path": os.path.relpath(src, root),
                                   "cond": conds.get(q["condition"], {"*": True}) if q.get("condition") else {"*": True}})
                    if len(bl) != len(a["breakpoints"]) or len(b.get("breakpoints", [])) != len(a["breakpoints"]):
                        L.append([t, {"e": "outcome", "hang": False, "crash": True, "natural": False, "info": "wrong number of breakpoints in response"}])
                    x = {"src": src, "modified": bool(a.get("sourceModified")), "bps": bl}
                    setreq[m["request_seq"]].update(x)
                    L.append([t, {"e": "setbp", **x}])
                elif rq.get("command") == "setExceptionBreakpoints":
                    L.append([t, {"e": "filters", "on": a.get("filters", [])}])
            elif m.get("event") == "stopped":
                txt = b.get("text") or ""
                L.append([t, {"e": "stop", "tid": b.get("threadId", 0), "reason": b.get("reason"), "bps": b.get("hitBreakpointIds") or [],
                              "desc": b.get("description") or "", "text": txt}])
            elif m.get("event") == "thread":
                L.append([t, {"e": "thradd" if b["reason"] == "started" else "threxit", "tid": b["threadId"]}])
            elif m.get("event") == "breakpoint":
                x = b["breakpoint"]
                L.append([t, {"e": "bpchg", "id": x.get("id", 0), "ver": bool(x["verified"]), "line": x.get("line") or 0,
                              "end": x["endLine"] if x.get("endLine") is not None else -1}])
            elif m.get("event") == "terminated":
                L.append([t, {"e": "term", "natural": bool(state and state["natural"])}])
    L.sort(key=lambda z: z[0])
    ev = [x for _, x in L if x["e"] != "setbpreq" or x["src"]]
    # A breakpoint event belongs before anything the play did since the client
    # last acted: lines are registered before any task of the file can start.
    out = []
    win = 0
    for x in ev:
        if x["e"] == "bpchg":
            out.insert(win, x)
            win += 1
        else:
            out.append(x)
            if x["e"] in ("setbp", "setbpreq", "resume", "filters", "stop"):
                win = len(out)
    ev = out
    # Where the client never asked, the thread is the host that goes on from its stop.
    live = set()
    for k, x in enumerate(ev):
        if x["e"] == "thradd":
            live.add(x["tid"])
        elif x["e"] == "threxit":
            live.discard(x["tid"])
        if x["e"] == "stop" and x["tid"] not in names:
            y = (next((y for y in ev[k + 1:] if y["e"] == "start"), None) if x["reason"] != "exception" else
                 next((y for y in reversed(ev[:k]) if y["e"] == "end"), None))
            if y and y["h"] not in [names.get(z) for z in live]:
                names[x["tid"]] = y["h"]
    for k, x in enumerate(ev):
        if "tid" in x and x["e"] != "outcome":
            x["h"] = names.get(x["tid"], "?")
    ended = any(x["e"] in ("term",) for x in ev)
    for k, x in enumerate(ev):
        if x["e"] == "stop":
            x["inst"] = {"e": "none"}
            x["last"] = ended
            x["hasmsg"] = False
            if x["reason"] != "exception":
                for y in ev[k + 1:]:
                    if y["e"] == "start" and y["h"] == x["h"]:
                        x["inst"] = {kk: vv for kk, vv in y.items() if kk != "stopped"}
                        y["stopped"] = True
                        break
                    if y["e"] == "stop" and y.get("tid") == x["tid"]:
                        break
            else:
                for y in reversed(ev[:k]):
                    if y["e"] == "end" and y["h"] == x["h"]:
                        x["hasmsg"] = bool(y["msg"]) and y["msg"] in x["text"]
                        if y["failed"] or y["unreach"]:
                            break
    if state is not None:
        ev.append({"e": "outcome", "hang": state["hang"], "crash": bool(state["crash"]), "natural": state["natural"],
                   "info": ("stage=%s " % state["stage"]) + (state["crash"] or "")[-600:]})
    return ev
