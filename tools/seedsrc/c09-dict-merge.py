META = {'property': 'C09', 'needs': 'setVariable that replaces a dictionary by another dictionary that lacks some of its keys', 'what_it_breaks': 'the new dictionary is merged into the old one, so keys that are not in the new value stay'}
EDITS = [
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     '        new_value = self._template(request.value, variable.stackframe.task_vars)\n        variable.set(request.name, new_value)\n',
     '        new_value = self._template(request.value, variable.stackframe.task_vars)\n        current = dict(variable.get()).get(request.name)\n        if isinstance(current, dict) and isinstance(new_value, dict):\n            # Update the existing container so the references to it stay valid.\n            current.update(new_value)\n            new_value = current\n        else:\n            variable.set(request.name, new_value)\n'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  vars: {v: {k: 1, l: 2}}
  tasks:
  - name: one
    debug: {msg: "{{ v }}"}
"""})
    try:
        d.listen().attach([("pb.yml", [5])])
        s = d.stopped(10)
        fr = d.top(s["threadId"])
        sc = {x["name"]: x["variablesReference"] for x in d.call("scopes", frameId=fr[0]["id"])["body"]["scopes"]}
        r = d.call("setVariable", variablesReference=sc["Task Variables"], name="v", value="{'k': 5}")
        assert r["success"]
        assert r["body"]["value"] == "{'k': 5}", r
        r = d.call("evaluate", expression="v", context="watch", frameId=fr[0]["id"])
        assert r["body"]["result"] == "{'k': 5}", r
        d.call("continue", threadId=s["threadId"])
        assert d.finish() == 0
    finally:
        d.close()

main(run)
'''
