META = {'property': 'C10', 'needs': 'a disconnect without terminateDebuggee while a host that was stepped is running its task', 'what_it_breaks': 'a disconnect resumes only hosts that are stopped; a host with a pending step stops at its next task with nobody to resume it'}
EDITS = [
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     '        with self._waiting_condition:\n            self._new_thread_state = state\n            self._resume_threads(list(self.threads.keys()), state)',
     '        with self._waiting_condition:\n            self._new_thread_state = state\n            self._resume_threads(\n                [\n                    tid\n                    for tid, thread in self.threads.items()\n                    if state == ThreadState.END or thread.state == ThreadState.WAIT\n                ],\n                state,\n            )'),
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     '        self,\n        request: ansibug.dap.DisconnectRequest,\n    ) -> None:\n        state = ThreadState.END if request.terminate_debuggee else ThreadState.CONTINUE',
     '        self,\n        request: ansibug.dap.DisconnectRequest,\n    ) -> None:\n        state = ThreadState.CONTINUE\n        if request.terminate_debuggee:\n            state = ThreadState.END'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - name: one
    command: sleep 3
  - name: two
    debug: {msg: y}
"""})
    try:
        d.listen().attach([("pb.yml", [4])])
        s = d.stopped(10)
        assert s
        d.call("next", threadId=s["threadId"])
        d.send("disconnect")
        assert d.finish(25) == 0, "the playbook did not end"
    finally:
        d.close()

main(run)
'''
