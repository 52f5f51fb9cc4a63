"""Runs a playbook in this process with the debugger, recording what Ansible itself does.

Recording hooks are placed on Ansible's own base classes (never on ansibug):
  start  - StrategyBase._queue_task / _execute_meta really begin a task
  end    - StrategyBase._process_pending_results hands back a result
"""
from __future__ import annotations
import json, os, sys, time

_fd = None


def rec(**kw):
    kw["t"] = time.monotonic_ns()
    os.write(_fd, (json.dumps(kw) + "\n").encode())


def _task_info(task):
    from ansible.playbook.task import Task
    from ansible.playbook.block import Block
    from ansible import constants as C
    chain = []
    p = task._parent
    while p is not None:
        if isinstance(p, Task) and p.action in C._ACTION_ALL_INCLUDES:
            path = p.get_path() or ""
            chain.append([p._uuid, path])
        p = p._parent
    covered = False
    inside, p = {task._uuid}, task._parent
    while p is not None:
        if isinstance(p, Block) and p.rescue and any(x._uuid in inside for x in p.block):
            covered = True
        inside.add(p._uuid)
        p = p._parent
    return {
        "u": task._uuid, "path": task.get_path() or "", "name": task.get_name(),
        "chain": chain, "inc": task.action in C._ACTION_ALL_INCLUDES,
        "incrole": task.action in C._ACTION_INCLUDE_ROLE,
        "meta": task.action in C._ACTION_META,
        "cov": covered,
    }


def install(fd):
    global _fd
    _fd = fd
    from ansible.plugins.strategy import StrategyBase
    oq, om, op, orun = (StrategyBase._queue_task, StrategyBase._execute_meta,
                  StrategyBase._process_pending_results, StrategyBase.run)

    def _queue_task(self, host, task, task_vars, play_context):
        rec(e="start", h=host.get_name(), **_task_info(task))
        return oq(self, host, task, task_vars, play_context)

    def _execute_meta(self, task, play_context, iterator, target_host):
        rec(e="start", h=target_host.get_name(), raw=task.args.get("_raw_params"), **_task_info(task))
        r = om(self, task, play_context, iterator, target_host)
        rec(e="endmeta", h=target_host.get_name(), u=task._uuid, raw=task.args.get("_raw_params"))
        return r

    def _process_pending_results(self, *a, **k):
        res = op(self, *a, **k)
        for r in res:
            f = r._task_fields or {}
            rec(e="end", h=r._host.get_name(), u=r._task._uuid, failed=bool(r.is_failed()),
                unreach=bool(r.is_unreachable()), skipped=bool(r.is_skipped()),
                ign=bool(f.get("ignore_errors")), ignu=bool(f.get("ignore_unreachable")),
                msg=str(r._result.get("msg", "")),
                cov=_task_info(r._task)["cov"])
        return res

    StrategyBase._queue_task = _queue_task
    StrategyBase._execute_meta = _execute_meta
    StrategyBase._process_pending_results = _process_pending_results

    import ansible.executor.task_queue_manager as tqm
    orun2 = tqm.TaskQueueManager.run

    def run(self, play):
        rec(e="play")
        try:
            return orun2(self, play)
        finally:
            rec(e="playend")
    tqm.TaskQueueManager.run = run


def inline_workers(det=True):
    """Execute tasks inside the strategy's process: no per-task fork.

    With det a result is waited for before the strategy goes on, so that the
    order in which results of several hosts are handled does not vary.
    """
    import ansible.plugins.strategy as S
    from ansible.executor.task_executor import TaskExecutor
    import collections, threading
    count = [0]
    cond = threading.Condition()

    class Counting(collections.deque):
        def append(self, x):
            super().append(x)
            with cond:
                count[0] += 1
                cond.notify_all()

    oinit = S.StrategyBase.__init__

    def __init__(self, *a, **k):
        oinit(self, *a, **k)
        self._results = Counting()
    S.StrategyBase.__init__ = __init__

    class InlineWorker:
        def __init__(self, final_q, task_vars, host, task, play_context, loader, variable_manager, shared_loader_obj, worker_id):
            self.a = (final_q, task_vars, host, task, play_context, loader, variable_manager, shared_loader_obj)
            self.exitcode = 0
            self.worker_id = worker_id

        def start(self):
            from ansible.executor.task_result import TaskResult
            final_q, task_vars, host, task, pc, loader, vm, slo = self.a
            t = task.copy()
            stdin = open(os.devnull)
            try:
                r = TaskExecutor(host, t, dict(task_vars), pc, stdin, loader, slo, final_q, vm).run()
            finally:
                stdin.close()
            n = count[0]
            final_q.send_task_result(host.name, task._uuid, r, task_fields=t.dump_attrs())
            if det:
                with cond:
                    cond.wait_for(lambda: count[0] > n, timeout=20)

        def is_alive(self):
            return False

        def terminate(self):
            pass

        def join(self, *a):
            pass
    S.WorkerProcess = InlineWorker


def run_playbook(args, tracefile, inline=True, det=True):
    fd = os.open(tracefile, os.O_CREAT | os.O_APPEND | os.O_WRONLY, 0o600)
    install(fd)
    os.environ["VH_TRACE_FD"] = str(fd)
    if inline:
        inline_workers(det)
    from ansible.cli.playbook import PlaybookCLI
    cli = PlaybookCLI(["ansible-playbook"] + args)
    cli.parse()
    rc = cli.run()
    rec(e="rc", rc=rc)
    return rc
