"""Runs verification tasks in forked processes, one process per task.

A task is (key, function): the function runs in the child and returns a
picklable result.  Tasks may be added while others run (a function found to
need a contract is verified too).
"""
import os
import pickle
import select
import signal
import time
import traceback


class Result(object):
    def __init__(self, key, ok, value, wall):
        self.key, self.ok, self.value, self.wall = key, ok, value, wall


def _child(fn, w):
    try:
        try:
            out = (True, fn())
        except BaseException as ex:        # reported to the parent
            out = (False, '%s: %s' % (type(ex).__name__, str(ex)[:500])
                   + '\n' + traceback.format_exc()[-1500:])
        data = pickle.dumps(out)
    except BaseException as ex:
        data = pickle.dumps((False, 'unpicklable result: %r' % (ex,)))
    try:
        while data:
            n = os.write(w, data)
            data = data[n:]
    finally:
        os._exit(0)


def run(tasks, on_result=None, nproc=None, timeout=120, deadline=None):
    """Run all tasks; on_result(result) may return more tasks.

    Yields nothing; returns the list of results in order of task creation.
    """
    nproc = nproc or min(8, os.cpu_count() or 1)
    queue = list(tasks)
    order = [k for k, _ in queue]
    live = {}          # fd -> (pid, key, t0, chunks)
    done = {}
    while queue or live:
        while queue and len(live) < nproc:
            key, fn = queue.pop(0)
            if deadline is not None and time.time() > deadline:
                done[key] = Result(key, False, 'deadline reached', 0.0)
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in live:
                    os.close(fd)
                _child(fn, w)
            os.close(w)
            live[r] = (pid, key, time.time(), [])
        if not live:
            continue
        ready, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for fd in list(live):
            pid, key, t0, chunks = live[fd]
            late = now - t0 > timeout or (
                deadline is not None and now > deadline + 10)
            if fd in ready:
                data = os.read(fd, 1 << 20)
                if data:
                    chunks.append(data)
                    continue
            elif not late:
                continue
            if late and fd not in ready:
                os.kill(pid, signal.SIGKILL)
                res = Result(key, False, 'time limit of %ds' % timeout,
                             now - t0)
            else:
                try:
                    ok, val = pickle.loads(b''.join(chunks))
                except Exception as ex:
                    ok, val = False, 'worker died (%r)' % (ex,)
                res = Result(key, ok, val, now - t0)
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            done[key] = res
            for t in (on_result(res) if on_result else None) or ():
                order.append(t[0])
                queue.append(t)
    return [done[k] for k in order if k in done]
