META = {'property': 'C07', 'needs': 'a playbook or task file whose path contains a colon', 'what_it_breaks': 'the source path and line of a stack frame are split at the first colon of the path, so the stack trace of a task in such a file fails'}
EDITS = [
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     '        task_path_and_line = task_path.rsplit(":", 1)\n        path = task_path_and_line[0]\n        line = int(task_path_and_line[1])\n        client_path',
     '        path, _, task_line = task_path.partition(":")\n        line = int(task_line)\n        client_path'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - include_tasks: sub:dir/a.yml
""", "sub:dir/a.yml": """- name: leaf
  debug: {msg: y}
"""})
    try:
        d.listen().attach([("sub:dir/a.yml", [1])])
        s = d.stopped(10)
        assert s, s
        r = d.call("stackTrace", threadId=s["threadId"])
        assert r["success"], r
        f = r["body"]["stackFrames"][0]
        assert f["source"]["path"] == d.path("sub:dir/a.yml") and f["line"] == 1, f
        d.call("continue", threadId=s["threadId"])
        assert d.finish() == 0
    finally:
        d.close()

main(run)
'''
