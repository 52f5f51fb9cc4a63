META = {'property': 'C14', 'needs': 'the empty line that ends the headers of a message is split between two reads', 'what_it_breaks': 'the end of the headers is not found, the message and everything after it is never processed'}
EDITS = [
    ('dap/_adapter.py',
     '        self._in_buffer = bytearray()\n        self.__seq_no_in = 1\n',
     '        self._in_buffer = bytearray()\n        self._searched = 0\n        self.__seq_no_in = 1\n'),
    ('dap/_adapter.py',
     '        header_idx = self._in_buffer.find(b"\\r\\n\\r\\n")\n        if header_idx == -1:\n            return None\n',
     '        # What was searched before does not need to be searched again.\n        header_idx = self._in_buffer.find(b"\\r\\n\\r\\n", self._searched)\n        if header_idx == -1:\n            self._searched = max(len(self._in_buffer) - 2, 0)\n            return None\n'),
    ('dap/_adapter.py',
     '        self._in_buffer = self._in_buffer[header_idx + length :]\n',
     '        self._in_buffer = self._in_buffer[header_idx + length :]\n        self._searched = 0\n'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": ""})
    try:
        for cut in (0, 1, 2, 3, 4):
            d.seq += 1
            b = json.dumps({"seq": d.seq, "type": "request", "command": "initialize", "arguments": {"adapterID": "x"}}).encode()
            h = b"Content-Length: %d\\r\\n\\r\\n" % len(b)
            k = len(h) - cut
            d.da.stdin.write(h[:k])
            d.da.stdin.flush()
            time.sleep(0.5)
            d.da.stdin.write(h[k:] + b)
            d.da.stdin.flush()
            n = d.seq
            assert d.find(lambda m: m["type"] == "response" and m["request_seq"] == n, 10) is not None, cut
    finally:
        d.close()

main(run)
'''
