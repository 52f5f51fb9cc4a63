META = {'property': 'C19', 'needs': 'the user has an ansible.cfg in the directory the playbook is started in that enables callbacks or names collection paths', 'what_it_breaks': 'the configuration file of the directory is not seen, the callbacks and collections of the user are lost'}
EDITS = [
    ('_exec_playbook.py',
     '        capture_output=True,\n        check=True,',
     '        stdout=subprocess.PIPE,\n        # Modules in the current directory should not be found by python -m.\n        cwd=str(ansibug_path),\n        check=True,'),
]
DEMO = '''
def run():
    d = Demo({"pb.yml": "- hosts: all\\n  gather_facts: false\\n  tasks:\\n  - debug: {msg: a}\\n",
              "ansible.cfg": "[defaults]\\ncallbacks_enabled = my_cb\\ncallback_plugins = ./cbs\\n",
              "cbs/my_cb.py": """from ansible.plugins.callback import CallbackBase
class CallbackModule(CallbackBase):
    CALLBACK_VERSION = 2.0
    CALLBACK_TYPE = "aggregate"
    CALLBACK_NAME = "my_cb"
    CALLBACK_NEEDS_ENABLED = True
    def v2_playbook_on_stats(self, stats):
        self._display.display("MY CALLBACK RAN")
"""}, wait=False)
    try:
        d.listen()
        assert d.finish() == 0
        assert "MY CALLBACK RAN" in d.output(), d.output()
    finally:
        d.close()

main(run)
'''
