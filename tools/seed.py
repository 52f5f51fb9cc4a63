#!/opt/venv/bin/python
"""Build and validate planted bugs.

  seed.py build ID...      write seeded/ID from tools/seedsrc/ID.py
  seed.py valid ID...      build the tree with the patch, run the tests and the demonstration (with and without)
  seed.py check ID [PROP] [TIER]  run the property's check against the patched tree
Everything runs with a scratch copy bound over /repo in a mount namespace of its own.
"""
import importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/var/tmp/seedwork"


def load(i):
    s = importlib.util.spec_from_file_location("seed", f"{V}/tools/seedsrc/{i}.py")
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def copy(i, patch=True):
    d = f"{W}/{i}-{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    if patch:
        subprocess.run(["git", "-C", d, "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
    return d


def ns(d, cmd, timeout=900, env=None):
    """Run cmd with d over /repo and a private /tmp."""
    sh = f"mount --bind {d} /repo && mount -t tmpfs tmpfs /tmp && chmod 1777 /tmp && cd /repo && {cmd}"
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=dict(os.environ, **(env or {})))
    return p.returncode, p.stdout.decode(errors="replace")


def build(i):
    m = load(i)
    out = f"{V}/seeded/{i}"
    d = copy(i, False)
    try:
        for f, old, new in m.EDITS:
            p = f"{d}/src/ansibug/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE, check=True).stdout.decode()
        # something of the original repository has to change
        base = subprocess.run(["git", "-C", d, "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE).stdout.decode().split()[0]
        orig = 0
        for f in {e[0] for e in m.EDITS}:
            b = subprocess.run(["git", "-C", d, "blame", "-s", "--abbrev=40", "HEAD", "--", f"src/ansibug/{f}"], stdout=subprocess.PIPE).stdout.decode().splitlines()
            lines = {}
            for n, l in enumerate(b):
                lines[n + 1] = l.lstrip("^").startswith(base[:39])
            fd = subprocess.run(["git", "-C", d, "diff", "-U0", "--", f"src/ansibug/{f}"], stdout=subprocess.PIPE).stdout.decode()
            n = 0
            for l in fd.splitlines():
                if l.startswith("@@"):
                    n = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    orig += lines.get(n, False)
                    n += 1
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom dapdemo import *\n' + m.DEMO.lstrip("\n"))
        shutil.copy(f"{V}/tools/seedlib/dapdemo.py", out)
        json.dump(m.META, open(out + "/meta.json", "w"), indent=1)
        print(i, "built;", orig, "original lines changed" + ("" if orig else "  <-- NONE"))
    finally:
        shutil.rmtree(d)


def valid(i):
    ok = True
    d0, d1 = copy(i, False), copy(i + "", False)
    d1 = copy(i + "", True)
    d0 = f"{W}/{i}-base-{os.getpid()}"
    subprocess.run(["cp", "-a", "/repo", d0], check=True)
    o = f"{W}/out-{i}-{os.getpid()}"
    os.makedirs(o, exist_ok=True)
    try:
        subprocess.run(["cp", "-a", f"{V}/seeded/{i}", o + "/s"], check=True)
        for f in ("patch.diff", "meta.json"):
            os.remove(f"{o}/s/{f}")
        rc, t = ns(d1, "bash /opt/vp/build.sh")
        print(i, "build", rc)
        ok &= rc == 0
        rc, t = ns(d0, f"bash {o}/s/demo.sh", 300)
        print(i, "demo on unchanged", rc, t[-300:].strip() if rc else "")
        ok &= rc == 0
        rc, t = ns(d1, f"bash {o}/s/demo.sh", 300)
        print(i, "demo on patched", rc, t[-200:].strip())
        ok &= rc != 0
        miss = None
        for _ in range(3):
            rc, t = ns(d1, f"bash /opt/vp/test.sh {o}/t.json")
            b = json.load(open("/opt/vp/BASELINE.json"))
            r = json.load(open(f"{o}/t.json"))
            miss = sorted(set(b.get("passed") or b.get("stable") or []) - set(r.get("passed") or []))
            if not miss:
                break
        print(i, "missing tests", miss)
        ok &= not miss
    finally:
        for x in (d0, d1, o):
            shutil.rmtree(x, ignore_errors=True)
    print(i, "VALID" if ok else "INVALID")
    return ok


def check(i, prop=None, tier="quick"):
    prop = prop or json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    d = copy(i)
    try:
        rc, t = ns(d, f"cd {V} && VERIF_SEED={os.environ.get('VERIF_SEED', '1')} ./check {prop} {tier}", 1000)
        lines = [l for l in t.splitlines() if l.startswith("VIOLATION")]
        print(i, prop, tier, "rc", rc, "CAUGHT" if rc == 1 and any(f"property={prop} " in l for l in lines) else "MISSED", len(lines))
        for l in lines[:3]:
            print("  ", l[:300])
        if rc not in (0, 1):
            print(t[-1500:])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "check":
        check(*sys.argv[2:])
    else:
        for i in sys.argv[2:]:
            {"build": build, "valid": valid}[sys.argv[1]](i)
