META = {'property': 'C16', 'needs': 'the stream between adapter and debuggee breaks inside the length that precedes a message', 'what_it_breaks': 'a broken stream is reported as properly closed'}
EDITS = [
    ('_mp_queue.py',
     '                if not b_data_len:\n                    break\n',
     '                if len(b_data_len) < 4:\n                    break\n'),
]
DEMO = '''
import select, socket, threading
sys.path.insert(0, "src")

def run():
    from ansibug._mp_queue import ServerMPQueue, MPProtocol
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix="demo-")
    said = []
    class P(MPProtocol):
        def on_msg_received(self, msg):
            pass
        def connection_closed(self, exp):
            said.append(exp)
    try:
        for n, error in ((0, False), (1, True), (2, True), (3, True), (5, True)):
            q = ServerMPQueue(f"uds:{tmp}/s{n}", P)
            c = socket.socket(socket.AF_UNIX)
            c.connect(f"{tmp}/s{n}")
            q.start()
            select.select([c], [], [], 0.3)[0] and c.recv(1)
            c.sendall(b"\\x20\\0\\0\\0abcdef"[:n])
            c.close()
            end = time.time() + 10
            while not said and time.time() < end:
                time.sleep(0.01)
            assert said, n
            assert (said.pop() is not None) == error, n
            q.stop()
    finally:
        shutil.rmtree(tmp)

main(run)
'''
