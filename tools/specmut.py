#!/usr/bin/env python3
"""Are the invariants of the specification worth anything?

Each entry changes one rule of a module (not of its invariants); TLC then has to
report one of them.  Modules that read cases need the cases of a quick check:
VH_TLC_DUMP=/tmp/dump ./check C03 quick (C04, C09, C10, C20)
and the cases of C05 as ControlMC.MC_PROGRAMS.exc

    tools/specmut.py [module]
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
DUMP = os.environ.get("VH_TLC_DUMP", "/tmp/dump")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CP = ":".join([JAR] + [os.path.join(os.path.dirname(JAR), f) for f in os.listdir(os.path.dirname(JAR)) if f.endswith(".jar") and not f.startswith("tla2tools")])
# checked module -> (configuration, constants, environment)
RUNS = {
    "ControlMC": ("ControlSafe.cfg", {}, ["MC_PROGRAMS"]),
    "ControlMC+exc": ("ControlSafe.cfg", {"MaxResumes": 1}, ["MC_PROGRAMS"]),
    "ControlMC+live": ("ControlMC.cfg", {"MaxResumes": 2}, ["MC_PROGRAMS"]),
    "BreakpointsMC": ("BreakpointsMC.cfg", {"MaxSets": 2, "Split": "TRUE"}, ["MC_CASES"]),
    "Session": ("Session.cfg", {}, ["MC_CASES"]),
    "VarsMC": ("VarsMC.cfg", {}, ["MC_CASES"]),
    "ConsoleMC": ("ConsoleMC.cfg", {"MaxPieces": 4, "Emit": "FALSE"}, ["MC_CASES"]),
    "StartMC": ("StartMC.cfg", {}, []),
    "Adapter": ("AdapterFree.cfg", {"MaxActs": 3}, []),
    "Channel": ("ChannelMC.cfg", {"MaxActs": 4}, []),
    "Framing": ("Framing.cfg", {}, []),
    "FramingOut": ("FramingOut.cfg", {}, []),
    "Listen": ("Listen.cfg", {"MaxPeers": 1}, []),
    "PathMapMC": ("PathMapMC.cfg", {}, []),
    "CodecMC": ("CodecMC.cfg", {}, []),
    "Requests": ("RequestsAll.cfg", {}, []),
}
MUTS = os.path.join(HERE, "tools", "specmut.txt")


def parse():
    out = []
    for block in open(MUTS).read().split("\n----\n"):
        if not block.strip():
            continue
        head, rest = block.strip("\n").split("\n", 1)
        run, file, name = head.split()
        old, new = rest.split("\n=>\n") if "\n=>\n" in rest else (rest[:-3] if rest.endswith("\n=>") else rest, "")
        out.append((run, file, name, old, new))
    return out


def one(m):
    run, file, name, old, new = m
    d = tempfile.mkdtemp(prefix="specmut-")
    try:
        for f in os.listdir(SPEC):
            shutil.copy(os.path.join(SPEC, f), d)
        p = os.path.join(d, file)
        s = open(p).read()
        if s.count(old) != 1:
            return m, f"BAD ({s.count(old)} places)"
        open(p, "w").write(s.replace(old, new))
        cfg, consts, env = RUNS[run]
        c = os.path.join(d, cfg)
        t = open(c).read()
        for k, v in consts.items():
            t = re.sub(r"(?m)^(\s*%s\s*=).*$" % k, r"\1 " + str(v), t)
        open(c, "w").write(t)
        mod = run.split("+")[0]
        e = dict(os.environ, **{k: os.path.join(DUMP, f"{mod}.{k}" + (".exc" if "exc" in run else "")) for k in env})
        r = subprocess.run(["timeout", "600", "java", "-Xmx4g", "-Xss64m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", "2", "-noGenerateSpecTE",
                            "-metadir", os.path.join(d, "m"), "-config", cfg, mod + ".tla"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode(errors="replace")
        v = re.findall(r"(?:Invariant|Action property|Temporal propert\w+)\s*(\w*)[^\n]*(?:is|was|were) violated", o)
        if v:
            return m, "caught by " + (v[0] or "liveness")
        if "in the domain of" in o or "unexpected exception" in o or "attempted to" in o.lower():
            return m, "caught: cannot be evaluated"
        if "No error has been found" in o:
            return m, "NOT CAUGHT"
        err = [l for l in o.splitlines() if "rror" in l]
        return m, "? " + " ".join(err)[:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    want = sys.argv[1] if len(sys.argv) > 1 else None
    ms = [m for m in parse() if not want or want in m[:3]]
    with ThreadPoolExecutor(3) as ex:
        for m, r in ex.map(one, ms):
            print(f"{m[0]:15} {m[1]:18} {m[2]:14} {r}", flush=True)


main()
