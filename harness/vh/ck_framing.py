"""Framing of the protocol on the adapter's input and output (C14).

1. Framing.tla (input) and FramingOut.tla (output) are checked by TLC.
2. Behaviours of Framing.tla - a stream of frames and how it is cut - are handed
   to the real decoder, and a sample to the real adapter process with a debuggee
   played by the check behind it; what came through after each chunk is compared.
3. Random streams, cut at any byte, with the debuggee sending at the same time
   and all log settings; judged by FramingTrace.tla.
"""
from __future__ import annotations
import json, os, random, threading, time
from . import zyg, tlc, scenario
from .ck_adapter import Peer

T0 = 25.0
LEVEL = "model_checking"
MULTI = ["\u00e4", "\u20ac", "\U0001f600", "\u2028", "\u0085", "\ufeff", "\u0800", "\U0010ffff", "\u00ff"]
TEXTS = ["x", "a b", "Content-Length: 7\r\n\r\n", "\r\n\r\n", "\\", "\"", "\t", "\x00", "\x7f", "{{ x }}", "%s %d", "\ud800", "a\ud83d\ude00b", "\n", "\x1b[0m", "", "null", "}{", ": "]
XNAMES = [b"Content-Type", b"X-Y", b"content-encoding", b"Host", b"A"]
XVALS = [b"application/vscode-jsonrpc; charset=utf-8", b"1", b"utf-8", b"7", b"a=b;c", b"Content-Length"]
UNSUP = ["pause", "source", "goto", "restartFrame", "x-y", "loadedSources", "\u00fcb", "a\r\n\r\nb", "modules"]


def text(rnd, big=False):
    n = rnd.choice([0, 1, 2, 5])
    s = "".join(rnd.choice(TEXTS + MULTI) for _ in range(n))
    if big:
        s += rnd.choice("ab\u00fc") * rnd.choice([4000, 4096, 5000, 9000, 70000]) + rnd.choice(MULTI)
    return json.loads(json.dumps(s))    # (surrogates that form a character become it)


def dumps(x, rnd):
    """JSON in one of its forms; what UTF-8 cannot carry is escaped."""
    s = json.dumps(x, ensure_ascii=rnd.random() < 0.3)
    if any(0xd800 <= ord(ch) < 0xe000 for ch in s):
        s = json.dumps(x)
    return s


def render(frame, seq, rnd, big=False):
    """The cells of a frame as bytes, and what it says."""
    cells = []

    head, post = [], []

    def hdr(k):
        if k == "X":
            return [rnd.choice(XNAMES) + b": ", rnd.choice(XVALS), b"\r", b"\n"]
        return [rnd.choice(XNAMES), b": x", b": ", rnd.choice(XVALS), b"\r", b"\n"]
    for k in frame["pre"]:
        head += hdr(k)
    for k in frame["post"]:
        post += hdr(k)
    no = seq + {"right": 0, "repeat": -1, "skip": 1}[frame["seq"]]
    say = {"seq": no, "type": "request", "command": "evaluate"}
    exp = text(rnd, big)
    b = frame["body"]
    u8 = lambda s: s.encode()
    if b == "unsup":
        say["command"] = rnd.choice(UNSUP)
        body = [u8('{"seq": %d,' % no), u8(' "type": "request", "command": %s, "arguments": %s}' % (dumps(say["command"], rnd), dumps({"a": exp}, rnd)))]
    elif b == "multi":
        ch = rnd.choice(MULTI).encode()
        k = rnd.randint(1, len(ch) - 1)
        body = [u8('{"seq": %d,' % no), b'"arguments":{"expression":"', ch[:k], ch[k:], u8(dumps(exp, rnd)[1:] + ',"context":"watch"},"type":"request","command":"evaluate"}')]
        exp = ch.decode() + exp
    else:
        args = {"context": "watch", "expression": exp}
        if rnd.random() < 0.3:
            args["frameId"] = None if rnd.random() < 0.0 else 7
        rest = ' "arguments": %s, "command": "evaluate", "type": "request"}' % dumps(args, rnd)
        if b == "plain":
            k = rnd.randrange(1, len(rest))
            body = [u8('{"seq": %d,' % no), u8(rest[:k]), u8(rest[k:])]
        else:
            body = [u8('{"seq": %d,' % no), b"\r", b"\n", b"\r", b"\n", u8(rest)]
    n = sum(len(x) for x in body)
    if frame["len"]:
        d = b"%d" % n
        k = rnd.randint(1, len(d)) if len(d) > 1 else 1
        num = [b"Content-Length", b": " + d[:k - 1] if k > 1 else b": ", d[k - 1:] if k > 1 else d, b"\r", b"\n"]
        head += num
    cells = head + post + [b"\r", b"\n"] + body
    return cells, {"exp": exp, "cmd": say["command"], "seq": no, "unsup": b == "unsup"}


def layout(frames, base, rnd, bigs=False):
    cells, says, table = [], [], []
    for i, f in enumerate(frames):
        c, s = render(f, base + i + 1, rnd, bigs and rnd.random() < 0.3)
        start = sum(len(x) for x in cells)
        body = {"unsup": 2, "plain": 3, "multi": 5, "blank": 6}[f["body"]]
        cells += c
        end = sum(len(x) for x in cells)
        table.append({"head": end - sum(len(x) for x in c[-body:]), "end": end, "good": f["len"] and f["seq"] == "right", "nolen": not f["len"]})
        says.append(s)
    return cells, says, table


# ------------------------------------------------------------ the decoder
def sig(frames, upto):
    return "/".join(f"{'.'.join(f['pre'])}-{'L' if f['len'] else 'none'}-{'.'.join(f['post'])}-{f['seq']}-{f['body']}" for f in frames)


def same(msg, say):
    return (type(msg).__name__ == "EvaluateRequest" and msg.seq == say["seq"] and msg.expression == say["exp"] and msg.context == "watch")


def decoder(item, out):
    """Behaviours handed to the decoder itself."""
    from ansibug import dap
    bad = []
    n = 0
    for beh in item["behs"]:
        for rep in range(item["times"]):
            rnd = random.Random(f"{item['seed']}/{n}")
            n += 1
            cells, says, _ = layout(beh["frames"], 0, rnd, rep == 2)
            c = dap.DebugAdapterConnection()
            pos = done = 0
            rej = False
            for h in beh["hist"]:
                chunk = b"".join(cells[pos:h["upto"]])
                pos = h["upto"]
                c.receive_data(rnd.choice([bytes, bytearray, memoryview])(chunk))
                while not rej:
                    try:
                        m = c.next_message()
                    except Exception as e:
                        if type(e).__name__ != "UnknownRequestError":
                            rej = True
                            break
                        if done >= len(says) or not says[done]["unsup"] or e.seq != says[done]["seq"] or e.command != says[done]["cmd"]:
                            bad.append(["content", sig(beh["frames"], 0), f"unsupported request {e.seq} {e.command!r}"])
                        done += 1
                        continue
                    if m is None:
                        break
                    if done >= len(says) or not same(m, says[done]):
                        bad.append(["content", sig(beh["frames"], 0), f"got {m!r} for {says[min(done, len(says) - 1)]}"[:700]])
                    done += 1
                if [done, rej] != [h["out"], h["rej"]]:
                    bad.append(["decoded", sig(beh["frames"], 0), f"cuts {[x['upto'] for x in beh['hist']]}: after {pos} cells {done} messages, rejected {rej}; specified {h['out']}, {h['rej']}; {b''.join(cells)[:300]!r}"])
                    break
    # the other direction: whatever is taken at a time, it is the frames in order
    for k in range(item["times"] * 10):
        rnd = random.Random(f"{item['seed']}/out{k}")
        c = dap.DebugAdapterConnection()
        got, want = b"", []
        for i in range(rnd.randint(1, 4)):
            t = text(rnd, rnd.random() < 0.3)
            no = c.queue_msg(dap.OutputEvent(category="stdout", output=t))
            want.append((no, t))
            if rnd.random() < 0.5:
                got += c.data_to_send(rnd.choice([-1, 0, 1, 5, 30, 10 ** 6]))
        while True:
            d = c.data_to_send(rnd.choice([-1, 1, 17, 400])) if rnd.random() < 0.9 else c.data_to_send()
            if not d:
                break
            got += d
        frames, left = strict(got)
        if left or [(f["m"].get("seq"), (f["m"].get("body") or {}).get("output")) for f in frames] != want or [w[0] for w in want] != list(range(1, len(want) + 1)):
            bad.append(["encoded", "queue", f"{want!r} came out as {got!r}"[:800]])
    return {"bad": bad, "n": n}


def strict(data):
    """Frames of exactly the announced length with nothing between them."""
    out = []
    while data:
        if not data.startswith(b"Content-Length: "):
            return out, data
        i = data.find(b"\r\n\r\n")
        if i < 0:
            return out, data
        try:
            n = int(data[16:i])
        except ValueError:
            return out, data
        body = data[i + 4:i + 4 + n]
        if len(body) < n:
            return out, data
        try:
            m = json.loads(body.decode())
        except ValueError:
            return out, data
        out.append({"m": m, "n": n})
        data = data[i + 4 + n:]
    return out, b""


# ------------------------------------------------------- the real adapter
class Raw:
    """The adapter's output as bytes, read fast or slowly."""

    def __init__(self, fd, slow):
        self.fd, self.slow, self.data, self.eof = fd, slow, b"", False
        self.frames, self.rest = [], b""
        self.cond = threading.Condition()
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            if self.slow:
                time.sleep(0.002)
            try:
                d = os.read(self.fd, 700 if self.slow else 65536)
            except OSError:
                d = b""
            with self.cond:
                if d:
                    self.rest += d
                    f, self.rest = strict(self.rest)
                    self.frames += f
                else:
                    self.eof = True
                self.cond.notify_all()
            if not d:
                return

    def until(self, f, timeout=T0):
        with self.cond:
            return self.cond.wait_for(lambda: self.eof or f(), timeout) and f()

    def errors(self):
        return [f["m"] for f in list(self.frames) if f["m"].get("type") == "response" and f["m"].get("success") is False]


def stream(item, out):
    from ansibug import dap
    rnd = random.Random(item["seed"])
    addr = os.path.join(out, "s")
    answers = []

    def on(p, m):
        if type(m).__name__ == "EvaluateRequest":
            t = f"answer {len(answers) + 1} \u00fc" + rnd2.choice(["", "\r\n\r\n", "\ud800", "x" * 5000])
            answers.append([m.seq, t])
            p.send(dap.EvaluateResponse(request_seq=m.seq, result=t))
    rnd2 = random.Random(item["seed"] + "p")
    peer = Peer(addr, on)
    args = []
    if item["log"]:
        args = ["--log-file", os.path.join(out, "log", "x.log") if item["log"] == "nodir" else os.path.join(out, "x.log"), "--log-level", "debug" if item["log"] == "nodir" else item["log"]]
        os.makedirs(os.path.join(out, "log"), exist_ok=True)
    item = {**item, "da_args": args}
    s = scenario.Session.__new__(scenario.Session)
    s.out, s.opts, s.pb_pid, s.da_pid, s.pb_status, s.da_status, s.c = out, item, None, None, None, None, None
    s.start_adapter()
    w = s.c.w
    raw = Raw(s.c.r, item["slow"])
    cells, says, table = layout(item["frames"], 2, rnd, item["big"])
    data = b"".join(cells)
    ups = item["upto"]
    if item["kind"] == "cells":
        acc, cum = 0, [0]
        for c in cells:
            acc += len(c)
            cum.append(acc)
        cuts = [cum[u] for u in ups]
    else:
        cuts = sorted({min(len(data), max(1, int(u * len(data)))) for u in ups} | {len(data)})
    obs, events = [], []
    ended, hang = "run", ""

    def write(b):
        try:
            while b:
                b = b[os.write(w, b):]
            return True
        except OSError:
            return False

    def plain(seq, cmd, a):
        d = json.dumps({"seq": seq, "type": "request", "command": cmd, "arguments": a}).encode()
        return b"Content-Length: %d\r\n\r\n" % len(d) + d

    ngood = next((k for k, f in enumerate(table) if not f["good"]), len(table))
    own = {x["seq"]: x["cmd"] for x in says[:ngood] if x["unsup"]}

    def through():
        return len([m for m in peer.requests() if type(m).__name__ == "EvaluateRequest"]) + len([m for m in raw.errors() if own.get(m.get("request_seq")) == m.get("command")])

    def wait_through(n, timeout):
        end = time.monotonic() + timeout
        while through() < n and time.monotonic() < end and not raw.eof:
            time.sleep(0.001)
        return through()
    stop = threading.Event()

    def emit():
        for k in range(item["events"]):
            if stop.is_set():
                break
            t = f"event {k + 1}" + rnd2.choice(["", "\u20ac", "y" * 3000, "z" * 70000 if item["slow"] is False else "z" * 9000])
            # (noted before it is sent: a send that fails leaves the connection broken)
            events.append(t)
            if not peer.send(dap.OutputEvent(category="stdout", output=t)):
                events.pop()
                break
            if item["pace"]:
                time.sleep(item["pace"])
    th = threading.Thread(target=emit, daemon=True)
    rc = None
    try:
        ok = write(plain(1, "initialize", {"adapterID": "ansibug"}) + plain(2, "attach", {"address": "uds://" + addr, "connectTimeout": 20}))
        if not raw.until(lambda: any(f["m"].get("command") == "attach" and f["m"].get("success") for f in raw.frames)):
            return {"harness_error": "attach failed " + s.read("da.log")[-900:]}
        peer.until(lambda: peer.connected)
        th.start()
        good = 0
        while good < len(table) and table[good]["good"]:
            good += 1
        rejects = good < len(table)
        pos = 0
        for cut in cuts:
            if not write(data[pos:cut]):
                raw.until(lambda: raw.eof)
            pos = cut
            want = sum(1 for f in table[:good] if f["end"] <= cut)
            rej = rejects and cut >= (table[good]["head"] if table[good]["nolen"] else table[good]["end"])
            if item["lock_step"] or cut == len(data) or rej or raw.eof:
                n = wait_through(want, T0)
                if rej:
                    # until it has ended
                    raw.until(lambda: raw.eof)
                    n = through()
                obs.append({"upto": cut, "n": n})
            if rej or raw.eof:
                break
        if not rejects:
            th.join(T0)
            sent_all = raw.until(lambda: sum(1 for f in raw.frames if f["m"].get("event") == "output") >= len(events) and
                                 sum(1 for f in raw.frames if f["m"].get("type") == "response" and f["m"].get("command") == "evaluate") >= sum(1 for x in says if not x["unsup"]))
            write(plain(len(says) + 3, "disconnect", {}))
            raw.until(lambda: raw.eof)
        stop.set()
        rc = s.wait_exit("da", T0 if raw.eof else 0.2)
        # a stream that is cut off where it is wrong ends the adapter by itself
        ended = "run" if rc is None else "ok" if rc == 0 else "rejected"
    finally:
        stop.set()
        peer.close()
        s.kill()
    outs = []
    idx = {"events": 0, "answers": 0, "own": 0}
    unsup = [x for x in says[:ngood] if x["unsup"]]
    last, rejects = -1, ngood < len(table)
    for f in raw.frames:
        m = f["m"]
        o = {"seq": m.get("seq", 0), "declared": f["n"], "actual": f["n"], "src": "other", "i": 0, "whole": True}
        if m.get("event") == "output":
            idx["events"] += 1
            t = (m.get("body") or {}).get("output")
            o.update(src="events", i=events.index(t, idx["events"] - 1) + 1 if t in events[idx["events"] - 1:] else 0, whole=t in events)
        elif m.get("type") == "response" and m.get("command") == "evaluate" and m.get("success"):
            at = next((k for k, a in enumerate(answers) if a[0] == m.get("request_seq")), -1)
            idx["answers"] += 1
            # (once the stream was rejected some requests are failed instead)
            o.update(src="answers", i=idx["answers"] if (at == idx["answers"] - 1 if not rejects else at > last) else 0,
                     whole=at >= 0 and (m.get("body") or {}).get("result") == answers[at][1])
            last = at
        elif m.get("type") == "response" and m.get("success") is False and unsup and m.get("request_seq") in [x["seq"] for x in unsup]:
            u = unsup[idx["own"]] if idx["own"] < len(unsup) else {"seq": None, "cmd": None}
            idx["own"] += 1
            o.update(src="own", i=idx["own"], whole=m.get("request_seq") == u["seq"] and m.get("command") == u["cmd"])
        outs.append(o)
    if raw.rest:
        outs.append({"seq": len(outs) + 1, "declared": 0, "actual": len(raw.rest), "src": "other", "i": 0, "whole": True})
    got = [m for m in peer.requests() if type(m).__name__ == "EvaluateRequest"]
    want = [x for x in says if not x["unsup"]]
    return {"trace": {"frames": table, "obs": obs, "total": len(data), "same": [k < len(want) and same(m, want[k]) for k, m in enumerate(got)],
                      "outs": outs, "ended": ended,
                      "owed": {"events": idx["events"] if rejects else len(events), "answers": idx["answers"] if rejects else len(want),
                               "own": idx["own"] if rejects else len(unsup)}},
            "rc": rc, "log": s.read("da.log")[-500:] if ended != "ok" else "", "rest": repr(raw.rest[:200])}


def variant(rnd, item):
    item.update(log=rnd.choice([None, None, "debug", "debug", "info", "warning", "error"]), slow=rnd.random() < 0.25, events=rnd.choice([0, 0, 3, 12]),
                pace=rnd.choice([0, 0, 0.002]), delay=rnd.random() if rnd.random() < 0.5 else None)
    return item


def random_stream(rnd, k):
    n = rnd.choice([1, 3, 6, 12, 40])
    bodies = rnd.choice([["plain", "blank", "multi", "unsup"], ["unsup"], ["plain", "multi"], ["unsup", "plain"]])
    frames = [{"pre": [rnd.choice("XT") for _ in range(rnd.choice([0, 0, 1, 3]))], "post": [rnd.choice("XT") for _ in range(rnd.choice([0, 0, 1]))],
               "len": True, "seq": "right", "body": rnd.choice(bodies)} for _ in range(n)]
    bad = rnd.random()
    if bad < 0.25:
        i = rnd.randrange(n)
        frames[i]["seq"] = rnd.choice(["repeat", "skip"])
    elif bad < 0.35:
        i = rnd.randrange(n)
        frames[i].update(len=False, pre=["X"], body="plain")
    return variant(rnd, {"kind": "bytes", "frames": frames, "upto": [rnd.random() for _ in range(rnd.choice([0, 1, 3, 10, 60]))],
                         "big": rnd.random() < 0.4 and n < 20, "lock_step": rnd.random() < 0.7, "seed": f"{k}/{rnd.random()}"})


def concurrent(rnd, k):
    """Both threads send as fast as they can."""
    n = rnd.choice([20, 40, 60])
    it = {"kind": "bytes", "frames": [{"pre": [], "post": [], "len": True, "seq": "right", "body": rnd.choice(["unsup", "unsup", "unsup", "plain"])} for _ in range(n)],
          "upto": [rnd.random() for _ in range(rnd.choice([0, 5, 40]))], "big": False, "lock_step": False, "seed": f"{k}/{rnd.random()}"}
    it = variant(rnd, it)
    it.update(events=rnd.choice([30, 60]), pace=0, slow=rnd.random() < 0.15, delay=rnd.random() if rnd.random() < 0.8 else None)
    return it


def run(rep, prop, tier, seed):
    rnd = random.Random(f"{seed}/C14")
    th = tier == "thorough"
    res = tlc.must(tlc.run("Framing", constants={"Frames": 3 if th else 2, "Rich": "FALSE" if th else "TRUE"}, workers=6, timeout=600, mem="6g"), "Framing")
    rep.tlc(res)
    res = tlc.must(tlc.run("FramingOut", constants={"N": 5 if th else 4}, timeout=200), "FramingOut")
    rep.tlc(res)
    if "is violated" not in tlc.run("FramingOut", constants={"Locked": "FALSE"}, timeout=100)["out"]:
        raise RuntimeError("FramingOut without its lock ought to fail")
    beh = []
    for w in range(6):
        r = tlc.run("Framing", "FramingSim.cfg", constants={"Frames": 2 if w < 4 or not th else 3}, workers=1, timeout=300, mem="3g",
                    extra=("-simulate", f"num={2500 if th else 500}", "-depth", "90", "-seed", str(seed * 100 + w)))
        if not r["ok"]:
            raise tlc.TlcError(r["out"][-2000:])
        beh += tlc.prints(r, "BEH")
        if not th and w == 1:
            break
    rep.count("behaviours", len(beh))
    per = max(1, len(beh) // 40)
    items = [{"behs": beh[i:i + per], "times": 12 if th else 5, "seed": f"{seed}/{i}"} for i in range(0, len(beh), per)]
    results = zyg.run_many(items, decoder, timeout=200, budget=200)
    for it, r in zip(items, results):
        if r.get("skipped"):
            continue
        rp = {"kind": "decoder", "item": it}
        if "harness_error" in r:
            rep.broken(r, "decoder", rp)
            continue
        rep.count("streams_decoded", r["n"])
        rep.traces += r["n"]
        for kind, s, info in r["bad"]:
            rep.viol(f"{kind}:{s}", info, rp)
    items = []
    for k, b in enumerate(rnd.sample(beh, min(len(beh), 1500 if th else 120))):
        items.append(variant(rnd, {"kind": "cells", "frames": b["frames"], "upto": [h["upto"] for h in b["hist"]], "big": False, "lock_step": True, "seed": f"{seed}/c{k}"}))
    items += [random_stream(rnd, f"{seed}/r{k}") for k in range(1200 if th else 120)]
    items += [concurrent(rnd, f"{seed}/m{k}") for k in range(600 if th else 60)]
    rnd.shuffle(items)
    results = zyg.run_many(items, stream, timeout=90, budget=450 if th else 90)
    tr = []
    for k, (it, r) in enumerate(zip(items, results)):
        if r.get("skipped"):
            rep.count("skipped_for_time")
            continue
        if "harness_error" in r:
            rep.broken(r, f"stream:{it['kind']}", {"kind": "stream", "item": it})
            continue
        rep.count("sessions")
        rep.count("frames_written", len(it["frames"]))
        rep.count("frames_read", len(r["trace"]["outs"]))
        r["trace"]["id"] = str(k)
        tr.append(r["trace"])
    res = tlc.must(tlc.run("FramingTrace", env={"TRACES": tlc.dump(tr, "ftraces.json")}, workers=1, timeout=300, mem="6g"), "FramingTrace")
    rep.tlc(res)
    out = tlc.prints(res, "RES")
    if len(out) != len(tr):
        raise RuntimeError("FramingTrace did not judge every session")
    rep.traces += len(out)
    by = {t["id"]: t for t in tr}
    for o in out:
        for b in o["bad"]:
            it, r = items[int(o["id"])], results[int(o["id"])]
            t = {x: by[o["id"]][x] for x in ("obs", "same", "ended", "owed", "total")}
            rep.viol(f"{b}:{it['kind']}:log={it['log']}", json.dumps({**t, "rc": r["rc"], "log": r["log"], "rest": r["rest"],
                     "outs": [[x["src"], x["i"], x["seq"], x["whole"]] for x in by[o["id"]]["outs"]][:60], "frames": by[o["id"]]["frames"][:8]})[:2500],
                     {"kind": "stream", "item": it})
    rep.sample({"cut": beh[0]})
    rep.sample({"session": {x: items[0][x] for x in ("kind", "log", "events", "slow")}})
    rep.assumptions += ["The JSON of a message is made by the check; header names are written as the protocol spells them."]


def replay(obj):
    return zyg.run_many([obj["item"]], {"decoder": decoder, "stream": stream}[obj["kind"]], timeout=120)[0]
