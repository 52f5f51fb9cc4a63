META = {'property': 'C08', 'needs': 'the variables of the frame of an include are looked at from a task inside it and their references used after the include has ended', 'what_it_breaks': 'references of a frame that is gone still give values instead of an error'}
EDITS = [
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     '                thread.stack_frames.pop(0)\n                self.stackframes.pop(frame_id)\n                for variable_id in frame.variables:\n                    del self.variables[variable_id]\n\n            # If this is the first',
     '                thread.stack_frames.pop(0)\n                if frame is last_frame:\n                    for variable_id in frame.variables:\n                        del self.variables[variable_id]\n                self.stackframes.pop(frame_id)\n\n            # If this is the first'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - include_tasks: out.yml
  - name: after
    debug: {msg: after}
""", "out.yml": """- include_tasks: inc.yml
""", "inc.yml": """- name: inner
  debug: {msg: inner}
"""})
    try:
        d.listen()
        d.attach([("inc.yml", [1]), ("pb.yml", [5])])
        s = d.stopped(30)
        refs = []
        for f in d.top(s["threadId"])[1:]:
            sc = d.call("scopes", frameId=f["id"])["body"]["scopes"]
            refs += [x["variablesReference"] for x in sc]
        for r in refs:
            assert d.call("variables", variablesReference=r)["success"]
        d.call("continue", threadId=s["threadId"])
        s = d.stopped(30)
        assert s
        for r in refs:
            assert not d.call("variables", variablesReference=r)["success"], r
        d.call("continue", threadId=s["threadId"])
        assert d.finish() == 0
    finally:
        d.close()

main(run)
'''
