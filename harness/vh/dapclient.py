"""A black-box JSON client for a debug adapter process (no ansibug imports)."""
from __future__ import annotations
import json, os, select, time


class Gone(Exception):
    """The adapter closed its output."""


class Timeout(Exception):
    pass


class Client:
    def __init__(self, rfd, wfd):
        self.r, self.w = rfd, wfd
        self.buf = b""
        self.seq = 1
        self.log = []       # (ns, "out"/"in", message)
        self.pos = 0        # next unread incoming message for the event loop
        self.inbox = []
        self.eof = False
        self.in_seq = 0
        self.seq_ok = True

    def send_raw(self, msg):
        data = json.dumps(msg).encode()
        self.log.append((time.monotonic_ns(), "out", msg))
        b = b"Content-Length: %d\r\n\r\n" % len(data) + data
        try:
            while b:
                b = b[os.write(self.w, b):]
        except OSError:
            raise Gone()

    def request(self, command, arguments=None):
        seq = self.seq
        self.seq += 1
        m = {"seq": seq, "type": "request", "command": command}
        if arguments is not None:
            m["arguments"] = arguments
        self.send_raw(m)
        return seq

    def respond(self, req, body=None, success=True):
        seq = self.seq
        self.seq += 1
        self.send_raw({"seq": seq, "type": "response", "request_seq": req["seq"], "success": success,
                       "command": req["command"], "body": body or {}})

    def _parse(self):
        while True:
            i = self.buf.find(b"\r\n\r\n")
            if i < 0:
                return
            n = None
            for h in self.buf[:i].split(b"\r\n"):
                k, _, v = h.partition(b":")
                if k.strip().lower() == b"content-length":
                    n = int(v)
            if n is None:
                raise ValueError("bad frame %r" % self.buf[:i])
            if len(self.buf) < i + 4 + n:
                return
            m = json.loads(self.buf[i + 4:i + 4 + n].decode())
            self.buf = self.buf[i + 4 + n:]
            self.in_seq += 1
            if m.get("seq") != self.in_seq:
                self.seq_ok = False
            self.log.append((time.monotonic_ns(), "in", m))
            self.inbox.append(m)

    def poll(self, timeout):
        """Read what is available within timeout; False on timeout."""
        if self.eof:
            raise Gone()
        r, _, _ = select.select([self.r], [], [], max(0, timeout))
        if not r:
            return False
        d = os.read(self.r, 65536)
        if not d:
            self.eof = True
            raise Gone()
        self.buf += d
        self._parse()
        return True

    def next(self, timeout):
        """Next unread incoming message."""
        end = time.monotonic() + timeout
        while self.pos >= len(self.inbox):
            left = end - time.monotonic()
            if left <= 0:
                raise Timeout()
            self.poll(left)
        m = self.inbox[self.pos]
        self.pos += 1
        return m

    def wait_response(self, seq, timeout):
        """Wait for the response to seq; other messages stay queued in order."""
        end = time.monotonic() + timeout
        k = 0
        while True:
            while k < len(self.inbox):
                m = self.inbox[k]
                if m.get("type") == "response" and m.get("request_seq") == seq:
                    if k >= self.pos:
                        del self.inbox[k]
                    return m
                k += 1
            left = end - time.monotonic()
            if left <= 0:
                raise Timeout()
            self.poll(left)

    def call(self, command, arguments=None, timeout=10):
        return self.wait_response(self.request(command, arguments), timeout)
