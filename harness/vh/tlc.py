"""Running TLC and reading its results."""
from __future__ import annotations
import json, os, re, shutil, subprocess, tempfile, time
from . import zyg

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = None


def classpath():
    global CM
    if CM is None:
        d = os.path.dirname(JAR)
        CM = ":".join([JAR] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and f != os.path.basename(JAR)))
    return CM


class TlcError(Exception):
    pass


def run(module, cfg=None, env=None, workers=4, timeout=600, extra=(), mem="3g", constants=None):
    """Run TLC; returns dict(out, states, distinct, prints, ok, error)."""
    work = tempfile.mkdtemp(prefix="tlc-", dir=zyg.SCRATCH or "/tmp")
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), work)
    cfgname = cfg or module + ".cfg"
    if constants:
        with open(os.path.join(work, cfgname)) as f:
            txt = f.read()
        for k, v in constants.items():
            txt, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % re.escape(k), r"\1 " + str(v).replace("\\", "\\\\"), txt)
            if not n:
                raise TlcError(f"constant {k} not in {cfgname}")
        with open(os.path.join(work, cfgname), "w") as f:
            f.write(txt)
    cmd = ["java", "-Xmx" + mem, "-XX:+UseParallelGC", "-Xss64m", "-cp", classpath(), "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(work, "m"), "-noGenerateSpecTE", "-config", cfgname, *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    if os.environ.get("VH_TLC_DUMP"):       # (for tools/specmut.py)
        for k, v in (env or {}).items():
            shutil.copy(v, os.path.join(os.environ["VH_TLC_DUMP"], f"{module}.{k}"))
    t0 = time.monotonic()
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(work, ignore_errors=True)
        raise TlcError(f"TLC timed out on {module}")
    out = p.stdout.decode(errors="replace")
    shutil.rmtree(work, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    prints = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                prints.append(json.loads(line))
            except ValueError:
                prints.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
    ok = p.returncode == 0
    return {"out": out, "rc": p.returncode, "ok": ok, "states": dist, "generated": gen, "prints": prints, "wall": time.monotonic() - t0}


def prints(res, tag):
    out = []
    for x in res["prints"]:
        if x.startswith(tag + " "):
            out.append(json.loads(x[len(tag) + 1:]))
    return out


def must(res, what):
    if not res["ok"]:
        raise TlcError(what + "\n" + res["out"][-4000:])
    return res


def dump(obj, name):
    p = os.path.join(zyg.SCRATCH, name)
    with open(p, "w") as f:
        json.dump(obj, f)
    return p
