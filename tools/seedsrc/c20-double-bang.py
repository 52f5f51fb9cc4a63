META = {'property': 'C20', 'needs': 'a console entry that starts with more than one exclamation mark', 'what_it_breaks': "'!!so x 1' is run as the command 'so x 1' instead of giving the help text"}
EDITS = [
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     'repl_command = parse_repl_args(expression[1:])',
     'repl_command = parse_repl_args(expression.lstrip("!"))'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - name: one
    debug: {msg: first}
"""})
    try:
        d.listen().attach([("pb.yml", [4])])
        s = d.stopped(10)
        fr = d.top(s["threadId"])
        r = d.call("evaluate", expression="!!so msg 'zz9'", context="repl", frameId=fr[0]["id"])
        d.call("continue", threadId=s["threadId"])
        assert d.finish() == 0
        assert "first" in d.output() and "zz9" not in d.output(), d.output()
    finally:
        d.close()

main(run)
'''
