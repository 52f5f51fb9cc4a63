META = {'property': 'C18', 'needs': 'two path mappings of which a later one has a more specific root on the Ansible side', 'what_it_breaks': 'paths sent to the client are translated with another mapping than the first that applies'}
EDITS = [
    ('_debuggee.py',
     '        for mapping in self._debug_config.path_mappings:\n            mapped_path = _map_path(path, mapping.remote_root, mapping.local_root)\n',
     '        for mapping in sorted(self._debug_config.path_mappings, key=lambda m: m.remote_root, reverse=True):\n            mapped_path = _map_path(path, mapping.remote_root, mapping.local_root)\n'),
]
DEMO = '''
def run():
    d = Demo({"sub/pb.yml": "- hosts: all\\n  gather_facts: false\\n  tasks:\\n  - debug: {msg: a}\\n"}, main="sub/pb.yml")
    try:
        d.listen()
        d.call("initialize", adapterID="ansibug")
        r = d.call("attach", processId=d.pb.pid, pathMappings=[{"localRoot": "/client", "remoteRoot": d.dir}, {"localRoot": "/other", "remoteRoot": d.path("sub")}])
        assert r["success"], r
        assert d.event("initialized") is not None
        d.call("setBreakpoints", source={"path": "/client/sub/pb.yml"}, breakpoints=[{"line": 4}])
        d.call("configurationDone")
        s = d.stopped(30)
        assert s
        f = d.top(s["threadId"])[0]
        assert f["source"]["path"] == "/client/sub/pb.yml", f
        d.call("continue", threadId=s["threadId"])
        assert d.finish() == 0
    finally:
        d.close()

main(run)
'''
