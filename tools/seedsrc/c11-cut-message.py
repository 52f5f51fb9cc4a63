META = {'property': 'C11', 'needs': 'the connection between adapter and playbook breaks in the middle of a message while the playbook is stopped', 'what_it_breaks': 'a message cut short is not taken for the end of the connection, so the playbook is never released'}
EDITS = [
    ('_mp_queue.py',
     '        except CancelledError:\n            self._proto.connection_closed(None)\n\n        except Exception as e:\n            self._proto.connection_closed(e)\n',
     '        except CancelledError:\n            self._proto.connection_closed(None)\n\n        except (OSError, EOFError) as e:\n            self._proto.connection_closed(e)\n'),
]
DEMO = '''
import socket, threading, pickle

def run():
    # a relay between the adapter and the playbook that cuts the connection in the middle of a message
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - name: one
    debug: {msg: a}
"""})
    try:
        d.listen()
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(d.path("relay"))
        srv.listen()
        up = socket.socket(socket.AF_UNIX)
        left = [None]

        def pump(a, b, limited):
            while True:
                x = a.recv(65536)
                if limited and left[0] is not None:
                    x = x[:left[0]]
                    left[0] -= len(x)
                if not x:
                    break
                b.sendall(x)
                if limited and left[0] == 0:
                    break
            if limited and left[0] == 0:
                b.shutdown(socket.SHUT_RDWR)
                b.close()

        def go():
            c, _ = srv.accept()
            up.connect(d.path("s"))
            threading.Thread(target=pump, args=(up, c, False), daemon=True).start()
            pump(c, up, True)

        threading.Thread(target=go, daemon=True).start()
        d.attach([("pb.yml", [4])], address="uds://" + d.path("relay"))
        s = d.stopped(10)
        assert s
        left[0] = 20
        d.send("threads")
        assert d.finish(20) == 0, "the playbook was not released"
    finally:
        d.close()

main(run)
'''
