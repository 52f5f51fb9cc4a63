META = {'property': 'C05', 'needs': 'exception filters replaced by a smaller set during the session', 'what_it_breaks': 'filters that the client turned off stay in force'}
EDITS = [
    ('_debuggee.py',
     '        self._breakpoint_exceptions = {}\n        for breakpoint_type in msg.filters:\n            self._breakpoint_exceptions[breakpoint_type] = True\n',
     '        filters = self._breakpoint_exceptions\n        for breakpoint_type in msg.filters:\n            filters[breakpoint_type] = True\n'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - name: one
    debug: {msg: a}
    when: false
  - name: two
    debug: {msg: a}
    when: false
"""})
    try:
        d.listen().attach(filters=["on_skipped"])
        s = d.stopped(10)
        assert s and s["reason"] == "exception", s
        d.call("setExceptionBreakpoints", filters=["on_error"])
        d.call("continue", threadId=s["threadId"])
        assert d.finish(15) == 0, "stopped for a filter that is off"
    finally:
        d.close()

main(run)
'''
