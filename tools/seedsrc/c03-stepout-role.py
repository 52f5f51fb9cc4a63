META = {'property': 'C03', 'needs': 'a step out from a task of a role that was included by include_role inside a file included by include_tasks', 'what_it_breaks': 'step out does not take include_role for a scope, so it leaves two scopes at once instead of one'}
EDITS = [
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     '            while task := task._parent:\n                if isinstance(task, Task) and task.action in C._ACTION_ALL_INCLUDES:\n                    break\n\n            self._stopped_task = task',
     '            while task := task._parent:\n                if isinstance(task, Task) and task.action in C._ACTION_INCLUDE_TASKS:\n                    break\n\n            self._stopped_task = task'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - include_tasks: a.yml
  - name: end
    debug: {msg: y}
""", "a.yml": """- include_role: {name: r}
- name: after role
  debug: {msg: y}
""", "roles/r/tasks/main.yml": """- name: in role
  debug: {msg: y}
- name: in role 2
  debug: {msg: y}
"""})
    try:
        d.listen().attach([("roles/r/tasks/main.yml", [1])])
        s = d.stopped(10)
        assert s, s
        d.call("stepOut", threadId=s["threadId"])
        s = d.stopped(10)
        assert s and d.top(s["threadId"])[0]["name"] == "after role", s
        d.call("continue", threadId=s["threadId"])
        assert d.finish() == 0
    finally:
        d.close()

main(run)
'''
