"""Forked children: every simulated run and every reference evaluation gets a pristine copy of a process that has
imported the code under test and done nothing else."""
import os
import pickle
import select
import signal
import struct
import time
import traceback


class HarnessError(Exception):
    pass


def forkrun(fn, *args, timeout=120):
    """run fn(*args) in a forked child -> ('ok', value) | ('error', traceback) | ('timeout', None) | ('died', status)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get('VERIF_DEBUG'):
                os.dup2(dn, 2)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            try:
                out = ('ok', fn(*args))
            except BaseException:
                out = ('error', traceback.format_exc())
            try:
                data = pickle.dumps(out, protocol=4)
            except Exception:
                data = pickle.dumps(('error', 'unpicklable: ' + traceback.format_exc()))
            data = struct.pack('<Q', len(data)) + data
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv[:1 << 20])
                mv = mv[n:]
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    status = None
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            status = 'timeout'
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if status == 'timeout':
        return ('timeout', None)
    if len(buf) < 8 or len(buf) - 8 != struct.unpack('<Q', bytes(buf[:8]))[0]:
        return ('died', st)
    return pickle.loads(bytes(buf[8:]))


def pmap(fn, items, workers, stop=None):
    """map over items in forked worker processes; item i goes to worker i % workers (static, so that the assignment
    does not depend on timing).  yields (index, ('ok', result) | ('error', traceback)) in arrival order."""
    items = list(items)
    workers = max(1, min(workers, len(items)))
    pids, bufs = {}, {}
    for wi in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for rr in pids:
                    os.close(rr)
                for i in range(wi, len(items), workers):
                    try:
                        res = ('ok', fn(items[i]))
                    except BaseException:
                        res = ('error', traceback.format_exc())
                    data = pickle.dumps((i, res), protocol=4)
                    mv = memoryview(struct.pack('<Q', len(data)) + data)
                    while mv:
                        mv = mv[os.write(w, mv[:1 << 20]):]
            except BaseException:
                os._exit(1)
            os._exit(0)
        os.close(w)
        pids[r] = pid
        bufs[r] = bytearray()
    live = set(pids)
    stopped = False
    try:
        while live:
            rl, _, _ = select.select(list(live), [], [], 1.0)
            for r in rl:
                b = os.read(r, 1 << 20)
                if not b:
                    live.discard(r)
                    continue
                buf = bufs[r]
                buf += b
                while len(buf) >= 8:
                    n, = struct.unpack('<Q', bytes(buf[:8]))
                    if len(buf) < 8 + n:
                        break
                    val = pickle.loads(bytes(buf[8:8 + n]))
                    del buf[:8 + n]
                    yield val
            if stop is not None and stop():
                stopped = True
                break
    finally:
        for r, p in pids.items():
            if stopped or r in live:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
            os.close(r)
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
