META = {'property': 'C15', 'needs': 'a list member that is empty, zero or false: an argument that is the empty text, an environment value that is empty', 'what_it_breaks': 'members of lists that are empty, zero or false disappear when a message is read'}
EDITS = [
    ('dap/_messages.py',
     'dict_to_update[field_meta] = [unpack_func(v) for v in value]',
     'dict_to_update[field_meta] = [unpack_func(v) for v in value if v]'),
]
DEMO = '''
sys.path.insert(0, "src")

def run():
    import json
    from ansibug import dap
    m = dap.RunInTerminalRequest(kind="integrated", cwd="/", args=["echo", "", "x"], title="t")
    b = dap.ProtocolMessage.unpack(json.loads(json.dumps(m.pack(), default=lambda o: o.value)))
    assert b.args == ["echo", "", "x"], b.args

main(run)
'''
