META = {'property': 'C02', 'needs': 'a conditional breakpoint whose condition differs between the hosts of a play', 'what_it_breaks': 'the outcome of a condition for the first host that gets to the task is used for the other hosts as well'}
EDITS = [
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     '                cond = Conditional(loader=self._loader)\n                cond.when = [condition]\n\n                try:\n                    return cond.evaluate_conditional(templar, templar.available_variables)\n                except AnsibleError:\n                    return False\n',
     '                known = task.__dict__.setdefault("_ansibug_conditions", {})\n                if condition not in known:\n                    cond = Conditional(loader=self._loader)\n                    cond.when = [condition]\n                    try:\n                        known[condition] = cond.evaluate_conditional(templar, templar.available_variables)\n                    except AnsibleError:\n                        known[condition] = False\n\n                return known[condition]\n'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - name: one
    debug: {msg: a}
"""}, inv="h1 ansible_connection=local\\nh2 ansible_connection=local\\n")
    try:
        d.listen().attach([("pb.yml", [{"line": 4, "condition": "inventory_hostname == 'h2'"}])])
        s = d.stopped(10)
        assert s, "no stop"
        assert d.call("evaluate", expression="inventory_hostname", context="watch", frameId=d.top(s["threadId"])[0]["id"])["body"]["result"] == "'h2'"
        d.call("continue", threadId=s["threadId"])
        assert d.finish(15) == 0
    finally:
        d.close()

main(run)
'''
