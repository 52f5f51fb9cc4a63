META = {'property': 'C17', 'needs': 'attaching over TCP with a CA file, to a server whose certificate is from that CA but for another name', 'what_it_breaks': 'a server whose certificate does not verify is accepted'}
EDITS = [
    ('_tls.py',
     '    if verify == "ignore":\n        ssl_context.check_hostname = False\n        ssl_context.verify_mode',
     '    # A custom CA only needs to be trusted.\n    ssl_context.check_hostname = verify == "verify"\n    if verify == "ignore":\n        ssl_context.verify_mode'),
]
DEMO = '''
import subprocess

def run():
    for name, ok in (("localhost", True), ("elsewhere.example", False)):
        d = Demo({"pb.yml": "- hosts: all\\n  gather_facts: false\\n  tasks:\\n  - debug: {msg: a}\\n"})
        try:
            subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-subj", "/CN=" + name, "-addext", "subjectAltName=DNS:" + name, "-days", "2",
                            "-keyout", d.path("k.pem"), "-out", d.path("c.pem")], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            d.listen_args = ["--wrap-tls", "--tls-cert", d.path("c.pem"), "--tls-key", d.path("k.pem")]
            d.addr = "tcp://"
            d.listen()
            info = json.load(open(d.path(f"ansibug-pid-{d.pb.pid}")))
            d.call("initialize", adapterID="ansibug")
            r = d.call("attach", address="tcp://localhost:" + info["address"].rsplit(":", 1)[1], useTls=True, tlsVerification=d.path("c.pem"), connectTimeout=10.0)
            assert r["success"] == ok, (name, r)
        finally:
            d.close()

main(run)
'''
