META = {'property': 'C04', 'needs': 'a breakpoint on a task that is followed by a block', 'what_it_breaks': 'the line range reported for a breakpoint runs on into the block that follows'}
EDITS = [
    ('_debuggee.py',
     '        while end_line < len(file_lines) and file_lines[end_line] is None:\n',
     '        while end_line < len(file_lines) and not file_lines[end_line]:\n'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - name: a
    debug: {msg: a}

  - block:
    - name: b
      debug: {msg: b}
    rescue: []
"""})
    try:
        d.listen()
        d.attach([("pb.yml", [4])])
        assert d.stopped(30)
        b = d.setbps("pb.yml", [4, 6])
        for x in b:
            assert (x["verified"], x["line"], x["endLine"]) == (True, 4, 6), b
    finally:
        d.close()

main(run)
'''
