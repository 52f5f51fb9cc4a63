"""A relay between adapter and playbook that can break the connection."""
from __future__ import annotations
import os, select, socket, threading


class Proxy(threading.Thread):
    """cut: None or (direction, bytes): stop after so many bytes in a direction ("up": to the playbook)."""

    def __init__(self, path, target, cut=None, hold=False):
        super().__init__(daemon=True)
        self.path, self.target, self.cut = path, target, cut
        self.l = socket.socket(socket.AF_UNIX)
        self.l.bind(path)
        self.l.listen(1)
        self.n = {"up": 0, "down": 0}
        self.broken = threading.Event()
        self.garbage = b""
        self.r, self.w = os.pipe()
        self.start()

    def brk(self, garbage=b""):
        """Breaks both connections, the one to the adapter after these bytes."""
        self.garbage = garbage
        os.write(self.w, b"x")
        self.broken.wait(5)

    def run(self):
        a, _ = self.l.accept()
        b = socket.socket(socket.AF_UNIX)
        try:
            b.connect(self.target)
            peers = {a: (b, "up"), b: (a, "down")}
            while peers:
                r, _, _ = select.select(list(peers) + [self.r], [], [])
                if self.r in r:
                    if self.garbage:
                        a.sendall(self.garbage)
                    break
                done = False
                for s in r:
                    o, d = peers[s]
                    x = s.recv(65536)
                    if not x:
                        done = True
                        break
                    if self.cut and self.cut[0] == d and self.n[d] + len(x) >= self.cut[1]:
                        x = x[:self.cut[1] - self.n[d]]
                        done = True
                    self.n[d] += len(x)
                    if x:
                        o.sendall(x)
                    if done:
                        break
                if done:
                    break
        except OSError:
            pass
        finally:
            for s in (a, b, self.l):
                try:
                    s.close()
                except OSError:
                    pass
            self.broken.set()
