META = {'property': 'C13', 'needs': 'the connection to the debuggee breaks in the middle of a message', 'what_it_breaks': 'the adapter never sends the terminated event'}
EDITS = [
    ('_debug_adapter.py',
     '        self._server.stop(exp, from_debuggee=True)\n',
     '        # Only a debuggee that ended properly has nothing left to close.\n        self._server.stop(exp, from_debuggee=exp is None)\n'),
]
DEMO = '''
import socket, threading

def run():
    # a relay between the adapter and the playbook that cuts the connection in the middle of a message
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - name: one
    debug: {msg: a}
"""})
    try:
        d.listen()
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(d.path("relay"))
        srv.listen()
        up = socket.socket(socket.AF_UNIX)
        left = [None]

        def pump(a, b, limited):
            while True:
                x = a.recv(65536)
                if limited and left[0] is not None:
                    x = x[:left[0]]
                    left[0] -= len(x)
                if not x:
                    break
                b.sendall(x)
                if limited and left[0] == 0:
                    break
            if limited and left[0] == 0:
                b.shutdown(socket.SHUT_RDWR)
                b.close()

        def go():
            c, _ = srv.accept()
            up.connect(d.path("s"))
            threading.Thread(target=pump, args=(c, up, False), daemon=True).start()
            pump(up, c, True)

        threading.Thread(target=go, daemon=True).start()
        d.attach([("pb.yml", [4])], address="uds://" + d.path("relay"))
        s = d.stopped(30)
        assert s
        left[0] = 20
        d.send("threads")
        assert d.event("terminated", 20) is not None, "no terminated event"
    finally:
        d.close()

main(run)
'''
