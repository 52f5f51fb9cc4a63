META = {'property': 'C12', 'needs': 'a stack trace is requested for a thread that is not there any more', 'what_it_breaks': 'a request with an unknown id is answered as if it had succeeded'}
EDITS = [
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     '        thread = self.threads[request.thread_id]\n        for sfid in thread.stack_frames:\n            sf = self.stackframes[sfid]\n',
     '        thread = self.threads.get(request.thread_id, None)\n        for sfid in thread.stack_frames if thread else []:\n            sf = self.stackframes[sfid]\n'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - name: one
    debug: {msg: a}
- hosts: all
  gather_facts: false
  tasks:
  - name: two
    debug: {msg: b}
"""})
    try:
        d.listen()
        d.attach([("pb.yml", [4, 9])])
        s = d.stopped(30)
        old = s["threadId"]
        assert d.call("stackTrace", threadId=old)["success"]
        d.call("continue", threadId=old)
        s = d.stopped(30)
        assert s["threadId"] != old
        r = d.call("stackTrace", threadId=old)
        assert not r["success"] and r.get("message"), r
        d.call("continue", threadId=s["threadId"])
        assert d.finish() == 0
    finally:
        d.close()

main(run)
'''
