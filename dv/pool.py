"""Runs verification units in processes of their own, a few at a time."""
import os
import pickle
import select
import signal
import sys
import time


def run_all(jobs, workers=8, limit=120.0, mem_gb=3.0, progress=None, until=None):
    """jobs: list of (key, function); returns {key: result or None}.  None of
    them takes longer than `limit`, and all end at the time `until`."""
    pending = list(jobs)
    running = {}
    out = {}
    while pending or running:
        if until is not None and time.time() > until:
            for key, fn in pending:
                out[key] = None
            pending, limit = [], 0.0
        while pending and len(running) < workers:
            key, fn = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    import resource
                    b = int(mem_gb * (1 << 30))
                    resource.setrlimit(resource.RLIMIT_AS, (b, b))
                    sys.setrecursionlimit(20000)
                    data = pickle.dumps(fn())
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException as e:
                    if os.environ.get('DV_TRACE'):
                        import traceback
                        traceback.print_exc()
                    code = 1
                os._exit(code)
            os.close(w)
            running[pid] = (key, r, time.time(), bytearray())
        fds = {v[1]: pid for pid, v in running.items()}
        ready, _, _ = select.select(list(fds), [], [], 0.5)
        for fd in ready:
            pid = fds[fd]
            key, r, t0, buf = running[pid]
            data = os.read(fd, 1 << 16)
            if data:
                buf.extend(data)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[pid]
            try:
                out[key] = pickle.loads(bytes(buf))
            except Exception:
                out[key] = None
            if progress:
                progress(key, out[key])
        for pid, (key, r, t0, buf) in list(running.items()):
            if time.time() - t0 > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[pid]
                out[key] = None
                if progress:
                    progress(key, None)
    return out
