"""Process plumbing for the in-process Ansible scenarios.

The master process imports Ansible and ansibug once (``preload``), then forks a
controller per scenario.  A controller forks the playbook process and the
debug-adapter process (both the real code, real sockets, real threads) and
drives them only through the Debug Adapter Protocol on the adapter's stdio.
"""
from __future__ import annotations
import json, os, shutil, signal, sys, tempfile, time, traceback

SCRATCH = None
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_env():
    """Environment needed before Ansible is imported; gives a scratch root."""
    global SCRATCH
    if SCRATCH:
        return SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="vh-", dir="/tmp")
    os.chmod(SCRATCH, 0o755)
    home = os.path.join(SCRATCH, "home")
    os.mkdir(home)
    for k in list(os.environ):
        if k.startswith(("ANSIBLE_", "ANSIBUG_", "PYTEST", "COVERAGE")) or k == "PYTHONPATH":
            del os.environ[k]
    os.environ.update(
        HOME=home, LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
        TMPDIR="/tmp",
        ANSIBLE_HOME=os.path.join(home, ".ansible"),
        ANSIBLE_LOCAL_TEMP=os.path.join(home, ".ansible", "tmp"),
        ANSIBLE_CALLBACKS_ENABLED="ansibug.dap.debug",
        ANSIBLE_STRATEGY="ansibug.dap.debug",
        ANSIBLE_COLLECTIONS_PATH=os.path.join(REPO, "src", "ansibug"),
        ANSIBLE_NOCOLOR="1", ANSIBLE_FORKS="5", ANSIBLE_LOCALHOST_WARNING="False",
        ANSIBLE_INVENTORY_UNPARSED_WARNING="False", ANSIBLE_RETRY_FILES_ENABLED="False",
        ANSIBLE_DEPRECATION_WARNINGS="False", ANSIBLE_SYSTEM_WARNINGS="False", ANSIBLE_DEVEL_WARNING="False",
    )
    os.environ["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    os.chdir(SCRATCH)
    return SCRATCH


def cleanup():
    if SCRATCH and os.path.isdir(SCRATCH) and SCRATCH.startswith("/tmp/vh-"):
        shutil.rmtree(SCRATCH, ignore_errors=True)


def preload():
    setup_env()
    devnull = os.open(os.devnull, os.O_RDONLY)
    os.dup2(devnull, 0)
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import ansible.cli.playbook  # noqa
    import ansible.executor.process.worker  # noqa
    import ansible.plugins.action, ansible.plugins.connection.local  # noqa
    import ansible.executor.task_executor  # noqa
    import ansible.plugins.strategy.linear  # noqa
    import ansibug, ansibug.__main__, ansibug._debug_adapter, ansibug._debuggee  # noqa
    import ansibug.dap  # noqa


def run_many(items, fn, jobs=None, timeout=60.0, budget=None):
    """Run fn(item, outdir) in a forked process per item; return result list.

    fn's return value must be JSON serialisable.  A controller that dies or
    overruns gives {"harness_error": ...}.
    """
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "10"))
    base = tempfile.mkdtemp(prefix="run-", dir=SCRATCH)
    results = [None] * len(items)
    running = {}
    nxt = 0
    t0 = time.monotonic()

    def reap(pid, status):
        i, out, started = running.pop(pid)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        p = os.path.join(out, "result.json")
        if os.path.exists(p):
            with open(p) as f:
                results[i] = json.load(f)
        else:
            results[i] = {"harness_error": f"the session had not ended after {time.monotonic() - started:.0f} s (controller status {status})"}
        shutil.rmtree(out, ignore_errors=True)

    while nxt < len(items) or running:
        while nxt < len(items) and len(running) < jobs:
            if budget and time.monotonic() - t0 > budget:
                for k in range(nxt, len(items)):
                    results[k] = {"skipped": True}
                nxt = len(items)
                break
            out = os.path.join(base, str(nxt))
            os.mkdir(out)
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setsid()
                    os.chdir(out)
                    signal.alarm(int(timeout) + 10)
                    r = fn(items[nxt], out)
                    tmp = os.path.join(out, "result.tmp")
                    with open(tmp, "w") as f:
                        json.dump(r, f)
                    os.rename(tmp, os.path.join(out, "result.json"))
                    os._exit(0)
                except BaseException:
                    with open(os.path.join(out, "result.json"), "w") as f:
                        json.dump({"harness_error": traceback.format_exc()}, f)
                    os._exit(1)
            running[pid] = (nxt, out, time.monotonic())
            nxt += 1
        if not running:
            break
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid and pid in running:
            reap(pid, status)
            continue
        now = time.monotonic()
        for p, (i, out, st) in list(running.items()):
            if now - st > timeout:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
        if not pid:
            time.sleep(0.002)
    shutil.rmtree(base, ignore_errors=True)
    return results


def fork_child(fn, stdin=None, stdout=None, stderr=None, env=None, cwd=None):
    """Fork a process that runs fn() as a program: fresh stdio, threads joined."""
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 70
    import atexit
    try:
        atexit._clear()
        signal.alarm(0)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        for fd, src in ((0, stdin), (1, stdout), (2, stderr)):
            if src is not None:
                os.dup2(src, fd)
        os.closerange(3, 256)
        sys.stdin = open(0, "r", closefd=False)
        sys.stdout = open(1, "w", closefd=False)
        sys.stderr = open(2, "w", closefd=False, buffering=1)
        import faulthandler
        if os.environ.get("VH_DUMP"):  # for looking into a hang
            faulthandler.dump_traceback_later(float(os.environ["VH_DUMP"]), file=2)
        if cwd:
            os.chdir(cwd)
        if env:
            for k, v in env.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
        try:
            r = fn()
            code = r if isinstance(r, int) else 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            traceback.print_exc()
            code = 71
        import threading
        sys.stdout.flush(); sys.stderr.flush()
        threading._shutdown()
        atexit._run_exitfuncs()
        sys.stdout.flush(); sys.stderr.flush()
    except BaseException:
        try:
            traceback.print_exc()
        except Exception:
            pass
    finally:
        os._exit(code)
