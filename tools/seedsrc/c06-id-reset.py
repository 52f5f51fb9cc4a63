META = {'property': 'C06', 'needs': 'a playbook with more than one play', 'what_it_breaks': 'thread ids start over with every play, so ids of exited threads are given out again in the same session'}
EDITS = [
    ('_debuggee.py',
     '        finally:\n            with self._strategy_connected:\n                self._strategy = None\n                self._strategy_connected.notify_all()',
     '        finally:\n            with self._strategy_connected:\n                self._strategy = None\n                self._thread_counter = 2\n                self._strategy_connected.notify_all()'),
    ('_debuggee.py',
     '        tid = self._thread_counter\n        self._thread_counter += 1\n\n        return tid',
     '        self._thread_counter += 1\n\n        return self._thread_counter - 1'),
]
DEMO = '''
def run():
    p = """- hosts: all
  gather_facts: false
  tasks:
  - name: one
    debug: {msg: y}
"""
    d = Demo({"pb.yml": p + p})
    try:
        d.listen().attach([("pb.yml", [4, 9])])
        for _ in range(2):
            s = d.stopped(10)
            assert s
            d.call("continue", threadId=s["threadId"])
        assert d.finish() == 0
        d.find(lambda m: m.get("event") == "terminated", 10)
        ids = [m["body"]["threadId"] for m in d.msgs if m.get("event") == "thread" and m["body"]["reason"] == "started"]
        assert len(ids) == 2 and len(set(ids)) == 2, ids
    finally:
        d.close()

main(run)
'''
