META = {'property': 'C01', 'needs': 'a resume request that arrives within the moment between the stop being reported and the host being marked as waiting', 'what_it_breaks': 'the host is marked as waiting only after the stop was reported and without the lock, so a resume sent at once can be overwritten and the play stays stopped'}
EDITS = [
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     '            self._stopped_task = task\n            self.state = ThreadState.WAIT\n            return ansibug.dap.StoppedEvent(**stopped_kwargs)',
     '            self._stopped_task = task\n            return ansibug.dap.StoppedEvent(**stopped_kwargs)'),
    ('ansible_collections/ansibug/dap/plugins/strategy/debug.py',
     '            stopped_event = thread.should_break(task, line_breakpoint)\n\n            if stopped_event:\n                self._debugger.queue_msg(stopped_event)\n                self._waiting_condition.wait_for(lambda: self.threads[tid].state != ThreadState.WAIT)\n',
     '            stopped_event = thread.should_break(task, line_breakpoint)\n\n        if stopped_event:\n            self._debugger.queue_msg(stopped_event)\n\n        with self._waiting_condition:\n            if stopped_event:\n                if thread.state != ThreadState.END:\n                    thread.state = ThreadState.WAIT\n                self._waiting_condition.wait_for(lambda: self.threads[tid].state != ThreadState.WAIT)\n'),
]
DEMO = '''
def run():
    # Every put on a queue in the playbook process is followed by a short pause.
    d = Demo({"pb.yml": """- hosts: all
  gather_facts: false
  tasks:
  - name: one
    debug: {msg: y}
""", "slow/sitecustomize.py": """import queue, time
put = queue.Queue.put
def slow(self, *a, **k):
    r = put(self, *a, **k)
    time.sleep(0.3)
    return r
queue.Queue.put = slow
"""})
    try:
        adapter, d.env = d.env, dict(d.env, PYTHONPATH=d.path("slow") + os.pathsep + os.environ.get("PYTHONPATH", ""))
        d.listen().attach([("pb.yml", [4])])
        s = d.stopped(10)
        assert s
        d.send("continue", threadId=s["threadId"])
        assert d.finish(20) == 0, "the continue was lost"
    finally:
        d.close()

main(run)
'''
