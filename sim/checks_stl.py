"""C06: STL files under disk faults."""
import collections
import copy
import ctypes
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import struct
import tempfile

import numpy as np

import core
import engine
import proc
import vocab
from driver import Check

SYS = {'read': 0, 'write': 1, 'close': 3, 'lseek': 8, 'pread64': 17, 'pwrite64': 18, 'readv': 19, 'writev': 20, 'fsync': 74, 'ftruncate': 77, 'sendfile': 40,
       'copy_file_range': 326, 'preadv': 295, 'pwritev': 296, 'mmap': 9, 'dup': 32, 'fdatasync': 75}


def syscall_errors(names, errno, minfd):
    """from here on these system calls fail with errno when their first argument (the descriptor) is >= minfd"""
    libc = ctypes.CDLL(None, use_errno=True)
    BPF_LD, BPF_JEQ, BPF_JGE, BPF_RET = 0x20, 0x15, 0x35, 0x06
    prog = [(BPF_LD, 0, 0, 4), (BPF_JEQ, 1, 0, 0xC000003E), (BPF_RET, 0, 0, 0x7fff0000), (BPF_LD, 0, 0, 0)]
    n = len(names)
    for i, s in enumerate(names):
        prog.append((BPF_JEQ, n - i, 0, SYS[s]))
    prog.append((BPF_RET, 0, 0, 0x7fff0000))
    prog.append((BPF_LD, 0, 0, 16))
    prog.append((BPF_JGE, 0, 1, minfd))
    prog.append((BPF_RET, 0, 0, 0x00050000 | errno))
    prog.append((BPF_RET, 0, 0, 0x7fff0000))
    raw = b''.join(struct.pack('HBBI', *p) for p in prog)
    buf = ctypes.create_string_buffer(raw)

    class Fprog(ctypes.Structure):
        _fields_ = [('len', ctypes.c_ushort), ('filter', ctypes.c_void_p)]
    fp = Fprog(len(prog), ctypes.cast(buf, ctypes.c_void_p))
    if libc.prctl(38, 1, 0, 0, 0) != 0 or libc.prctl(22, 2, ctypes.byref(fp), 0, 0) != 0:
        return False
    return True


# ----------------------------------------------------------------------------------------------------------
# meshes

def soup(n, seed, mode):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
    r = np.random.RandomState(seed)
    if mode == 'grid':
        k = max(1, int(np.sqrt(n / 2)))
        v = np.array([[i, j, np.sin(i * .7) * j * .1] for i in range(k + 1) for j in range(k + 1)], dtype=float)
        t = []
        for i in range(k):
            for j in range(k):
                a = i * (k + 1) + j
                t += [[a, a + k + 1, a + 1], [a + 1, a + k + 1, a + k + 2]]
    else:
        nv = 3 * n if mode == 'loose' else n + 3
        v = r.randn(nv, 3)
        if mode == 'loose':
            t = np.arange(3 * n).reshape(n, 3)
        else:       # fan
            t = np.array([[0, i + 1, i + 2] for i in range(n)])
    t = np.array(t)
    if r.rand() < .5:       # arbitrary corner order and orientation
        t = np.array([x[r.permutation(3)] for x in t])
    if r.rand() < .5:
        t = t[r.permutation(len(t))]
    s = r.choice([0, 0, 0, 1, 2, 3, 4])
    if s == 1:
        v = v * 1e12
    elif s == 2:
        v = v * 1e-12
    elif s == 3:
        v = np.round(v * 2) / 2 + np.arange(len(v))[:, None] * [1, 0, 0]
    elif s == 4:
        v = v + 1000.
    return ComplexTriangularEuclidian3(vertices=v, triangles=t)


def sphere(n):
    from pycomplex import synthetic
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
    s = synthetic.icosphere(n)
    return ComplexTriangularEuclidian3(vertices=s.vertices, topology=s.topology)


def build(m):
    if m[0] == 'soup':
        return soup(*m[1:])
    if m[0] == 'sphere':
        return sphere(m[1])
    c = engine._eval_path(m[1], m[2])
    return c if len(c.topology.elements) == 3 else soup(7, 1, 'loose')      # the boundary of such a mesh has its type, but no triangles


def key(t):
    """triangle as positions, up to cyclic rotation"""
    t = [tuple(x) for x in t]
    return min(tuple(t[k:] + t[:k]) for k in range(3))


def tris(c):
    v = np.asarray(c.vertices).astype(np.float32) + np.float32(0)
    return collections.Counter(key(t) for t in v[np.asarray(c.topology.elements[2])].tolist())


def parse(b):
    """binary STL read independently"""
    if len(b) < 84:
        return None
    n, = struct.unpack('<I', b[80:84])
    if len(b) < 84 + 50 * n:
        return None
    d = np.frombuffer(b, dtype=np.dtype([('n', '<f4', 3), ('v', '<f4', (3, 3)), ('a', '<u2')]), count=n, offset=84)
    return collections.Counter(key(t) for t in (d['v'] + np.float32(0)).tolist())


# ----------------------------------------------------------------------------------------------------------

def guarded(f, fault=None, mode='line', hook=None):
    """one library call as one simulated thread, possibly cut short -> (outcome, value, events, fired)"""
    out = {}

    def body(sim, t):
        sim.begin(t, 0, fault)
        try:
            v = f()
            sim.end(t)
            out['r'] = ('value', v)
        except (core.SimKilled, core.StepCap, core.Deadlock):
            raise
        except BaseException as e:
            sim.end(t)
            out['r'] = ('raise', type(e).__name__)
        out['k'] = t.k
        out['fired'] = t.fired
    sched = core.ReplaySchedule([])
    sim = core.Sim([body], sched, mode, cap=30000000)
    if hook:
        k0, fn = hook
        ev = sim.event

        def event(code, where):
            t = sim.by_ident.get(core._thread.get_ident())
            if t is not None and not t.quiet and t.k + 1 == k0:
                fn()
            return ev(code, where)
        sim.event = event
    sim.run()
    if sim.threads[0].error is not None:
        raise proc.HarnessError(sim.threads[0].tb)
    return out['r'], out['k'], out['fired']


def verdict_save(path, want, outcome, what):
    """save returned -> the file must be complete"""
    if outcome[0] != 'value':
        return []
    return complete(path, want, 'save returned normally although ' + what)


def complete(path, want, why):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3 as C
    try:
        b = open(path, 'rb').read()
    except OSError as e:
        return [{'kind': 'save-lost', 'step': 'save_STL', 'detail': '%s, but there is no readable file (%s)' % (why, e)}]
    p = parse(b)
    if p is None:
        return [{'kind': 'save-short', 'step': 'save_STL', 'detail': '%s, but the file has only %d bytes for its declared triangle count' % (why, len(b))}]
    if p != want:
        return [{'kind': 'save-wrong', 'step': 'save_STL', 'detail': '%s, but the stored triangles differ from the mesh (%d vs %d, %d in common)' % (
            why, sum(p.values()), sum(want.values()), sum((p & want).values()))}]
    r, k, f = guarded(lambda: tris(C.load_STL(path)))
    if r[0] != 'value':
        return [{'kind': 'load-fails', 'step': 'load_STL', 'detail': '%s; loading the complete file raises %s' % (why, r[1])}]
    if r[1] != want:
        return [{'kind': 'load-wrong', 'step': 'load_STL', 'detail': '%s; the loaded triangles differ from the saved ones (%d vs %d, %d in common)' % (
            why, sum(r[1].values()), sum(want.values()), sum((r[1] & want).values()))}]
    return []


def verdict_load(r, want, what):
    if r[0] != 'value' or r[1] == want:
        return []
    return [{'kind': 'load-partial', 'step': 'load_STL', 'detail': '%s: load returned %d of %d triangles without an error' % (what, sum((r[1] & want).values()), sum(want.values()))}]


def child(spec):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3 as C
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    d = tempfile.mkdtemp(prefix='verif-stl-')
    viol, log, faults, n = [], [], collections.Counter(), 0
    try:
        path = os.path.join(d, 'a.stl')
        c = build(spec['mesh'])
        want = tris(c)
        old = os.path.join(d, 'old.stl')

        def fresh():
            """state of the disk before the save"""
            if os.path.exists(path):
                os.remove(path)
            if spec.get('old'):
                shutil.copy(old, path)
        if spec.get('old'):
            soup(spec['old'], 1, 'loose').save_STL(old)
        # the fault-free save, and how many bytes and events it takes
        fresh()
        r, ksave, _ = guarded(lambda: c.save_STL(path), mode=spec['mode'])
        log.append((r[0], ksave))
        if r[0] != 'value':
            viol.append({'kind': 'save-fails', 'step': 'save_STL', 'detail': 'saving to a healthy disk raised %s' % (r[1],)})
            return viol, log, dict(faults), 1
        viol += complete(path, want, 'fault-free save')
        good = open(path, 'rb').read()
        size = len(good)
        r, kload, _ = guarded(lambda: tris(C.load_STL(path)), mode=spec['mode'])
        rng = random.Random(spec['seed'])

        def spots(total, m):
            if m >= total:
                return list(range(total))
            edge = [x for x in (0, 1, 79, 80, 81, 83, 84, 85, 133, 134, 4095, 4096, 8192, total - 51, total - 50, total - 1) if 0 <= x < total]
            recs = [84 + 50 * k for j in range(14) for k in (2 ** j - 1, 2 ** j, 3 * 2 ** j)] + [84 + 50 * k for k in (10, 100, 1000)] + [2 ** k for k in range(10, 20)]
            edge += [x for x in recs if x < total]
            return sorted(set(edge + [rng.randrange(total) for _ in range(m)]))
        for kind in spec['kinds']:
            if kind == 'full':
                for lim in spots(size, spec['m']):
                    fresh()
                    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
                    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
                    try:
                        r, _, _ = guarded(lambda: c.save_STL(path))
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
                    viol += verdict_save(path, want, r, 'the disk was full after %d of %d bytes' % (lim, size))
                    log.append((kind, lim, r))
                    faults['disk full at a byte position'] += 1
                    # whatever is on disk now must not load as a partial mesh
                    r, _, _ = guarded(lambda: tris(C.load_STL(path)))
                    viol += verdict_load(r, want, 'file left behind by a disk that was full after %d of %d bytes' % (lim, size)) if not spec.get('old') or os.path.getsize(path) <= size else []
                    n += 2
            elif kind == 'trunc':
                for lim in spots(size, spec['m']):
                    open(path, 'wb').write(good[:lim])
                    r, _, _ = guarded(lambda: tris(C.load_STL(path)))
                    if r[0] == 'value':
                        viol.append({'kind': 'load-partial', 'step': 'load_STL', 'detail': 'a file truncated to %d of %d bytes loaded with %d of %d triangles without an error' % (
                            lim, size, sum((r[1] & want).values()), sum(want.values()))})
                    log.append((kind, lim, r[0]))
                    faults['stored file truncated'] += 1
                    n += 1
            elif kind == 'count':
                m = (size - 84) // 50
                for declared in sorted({m + 1, m + 2, 2 * m, m + rng.randrange(1, 1000)}):
                    open(path, 'wb').write(good[:80] + struct.pack('<I', declared) + good[84:])
                    r, _, _ = guarded(lambda: tris(C.load_STL(path)))
                    if r[0] == 'value':
                        viol.append({'kind': 'load-partial', 'step': 'load_STL', 'detail': 'a file with %d records that declares %d triangles loaded without an error' % (m, declared)})
                    faults['declared count larger than content'] += 1
                    n += 1
            elif kind == 'shrink':
                for _ in range(spec['m2']):
                    open(path, 'wb').write(good)
                    k, lim = rng.randrange(1, kload + 1), rng.randrange(size)
                    r, _, _ = guarded(lambda: tris(C.load_STL(path)), mode=spec['mode'], hook=(k, lambda: os.truncate(path, lim)))
                    viol += verdict_load(r, want, 'file cut to %d of %d bytes while it was being loaded (event %d)' % (lim, size, k))
                    log.append((kind, k, lim, r[0]))
                    faults['file shrinks during load'] += 1
                    n += 1
            elif kind == 'abort':
                for _ in range(spec['m2']):
                    fresh()
                    k, f = rng.randrange(1, ksave + 1), rng.choice(core.FAULT_KINDS)
                    r, _, fired = guarded(lambda: c.save_STL(path), (k, f), spec['mode'])
                    viol += verdict_save(path, want, r, 'it was cut short by %s at event %d' % (f, k))
                    faults['save cut short: ' + f] += bool(fired)
                    log.append((kind, k, f, r[0]))
                    open(path, 'wb').write(good)
                    k = rng.randrange(1, kload + 1)
                    r, _, fired = guarded(lambda: tris(C.load_STL(path)), (k, f), spec['mode'])
                    viol += verdict_load(r, want, 'load cut short by %s at event %d' % (f, k))
                    faults['load cut short: ' + f] += bool(fired)
                    log.append((kind, k, f, r[0]))
                    # the mesh itself and a retry are unaffected
                    r, _, _ = guarded(lambda: c.save_STL(path))
                    if r[0] != 'value':
                        viol.append({'kind': 'save-fails', 'step': 'save_STL', 'detail': 'retry of an aborted save raised %s' % (r[1],)})
                    else:
                        viol += complete(path, want, 'retry of an aborted save')
                    n += 3
            elif kind == 'crash':
                for _ in range(spec['m2']):
                    fresh()
                    k = rng.randrange(1, ksave + 1)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            guarded(lambda: c.save_STL(path), mode=spec['mode'], hook=(k, lambda: os._exit(9)))
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
                    if os.path.exists(path):
                        had = open(path, 'rb').read()
                        before = open(old, 'rb').read() if spec.get('old') else None
                        r, _, _ = guarded(lambda: tris(C.load_STL(path)))
                        if had != before:
                            viol += verdict_load(r, want, 'file left by a process that crashed at event %d of saving' % k)
                        log.append((kind, k, len(had), r[0]))
                    faults['writer crashed'] += 1
                    n += 1
            elif kind == 'open':
                sub = os.path.join(d, 'sub')
                os.makedirs(sub, exist_ok=True)
                for bad in (os.path.join(d, 'nope', 'x.stl'), sub, os.path.join(path, 'x.stl'), os.path.join(d, 'x' * 300)):
                    r, _, _ = guarded(lambda: c.save_STL(bad))
                    if r[0] == 'value':
                        viol.append({'kind': 'save-lost', 'step': 'save_STL', 'detail': 'saving to %r, which cannot be opened, returned normally' % os.path.relpath(bad, d)[:60]})
                    r, _, _ = guarded(lambda: tris(C.load_STL(bad)))
                    if r[0] == 'value':
                        viol.append({'kind': 'load-partial', 'step': 'load_STL', 'detail': 'loading %r, which cannot be opened, returned a mesh' % os.path.relpath(bad, d)[:60]})
                    faults['open fails'] += 2
                    n += 2
            elif kind == 'device':
                for names, err in ((('write', 'writev', 'pwrite64', 'sendfile'), 5), (('write', 'writev', 'pwrite64'), 28), (('read', 'readv', 'pread64'), 5), (('read', 'readv', 'pread64'), 9)):
                    reading = 'read' in names
                    fresh()
                    if reading:
                        open(path, 'wb').write(good)
                    x = os.open('/dev/null', os.O_RDONLY)
                    os.close(x)

                    def op():
                        x = os.open('/dev/null', os.O_RDONLY)
                        os.close(x)
                        if not syscall_errors(names, err, x):
                            return ('unavailable', None)
                        return guarded((lambda: tris(C.load_STL(path))) if reading else (lambda: c.save_STL(path)))[0]
                    res = proc.forkrun(op)
                    if res[0] != 'ok':
                        raise proc.HarnessError('device fault: %s' % (res,))
                    r = res[1]
                    if r[0] == 'unavailable':
                        faults['device faults unavailable here'] += 1
                        continue
                    if reading:
                        viol += verdict_load(r, want, 'device error %d on every read' % err) if r[0] == 'value' else []
                    else:
                        viol += verdict_save(path, want, r, 'every write failed with errno %d' % err)
                    faults['device error on %s' % ('read' if reading else 'write')] += 1
                    log.append((kind, names[0], err, r[0]))
                    n += 1
            elif kind == 'threads':
                c2 = build(spec['mesh2'])
                want2 = tris(c2)
                paths = [os.path.join(d, 't%d.stl' % i) for i in range(3)]
                out = {}

                def mk(i):
                    def body(sim, t):
                        for j, (cc, ww) in enumerate(((c, want), (c2, want2), (c, want)) if i % 2 else ((c2, want2), (c, want))):
                            sim.begin(t, j)
                            try:
                                cc.save_STL(paths[i])
                                got = C.load_STL(paths[i])
                                sim.end(t)
                                out[i, j] = ('value', tris(got) == ww)
                            except (core.SimKilled, core.StepCap, core.Deadlock):
                                raise
                            except BaseException as e:
                                sim.end(t)
                                out[i, j] = ('raise', type(e).__name__)
                    return body
                sim = core.Sim([mk(i) for i in range(3)], core.RandomSchedule(random.Random(spec['seed']), 'walk', rng.choice([.3, .05]), 100), spec['mode'], cap=30000000)
                sim.run()
                for t in sim.threads:
                    if t.error is not None:
                        raise proc.HarnessError(t.tb)
                for (i, j), r in sorted(out.items()):
                    if r[0] != 'value' or not r[1]:
                        viol.append({'kind': 'threads', 'step': 'save_STL', 'detail': 'three threads saving and loading files of their own: one got %s' % (r,)})
                log.append((kind, sim.switch_locs))
                faults['thread switches'] += len(sim.switches)
                n += len(out)
        return viol, log, dict(faults), n
    finally:
        shutil.rmtree(d, ignore_errors=True)


KINDS = ['full', 'trunc', 'count', 'shrink', 'abort', 'crash', 'open', 'device', 'threads']


class C06(Check):
    prop = 'C06'
    level = 'fault_enumeration'
    real = ['save_STL/load_STL, mesh construction, numpy file I/O, the kernel file system in a scratch directory']
    stub = ['disk full (RLIMIT_FSIZE at a byte position)', 'device errors (seccomp errno on read/write)', 'crash (process exit at an event)', 'truncation and count corruption of the stored file']
    rule = ('one run = one seeded triangle mesh saved and loaded under a list of faults: disk full at byte positions (all of them for small meshes), every truncation of the '
            'stored file (all lengths for small meshes), declared counts larger than the content, shrinking during load, aborts and crashes at seeded events, failing '
            'opens, device errors, three threads with files of their own; non-trivial = distinct (mesh, fault log)')
    assumptions = ['files are written by one writer at a time', 'a crash is process death (what was handed to the kernel stays), not power loss']

    def runs(self, tier):
        return 450 if tier == 'quick' else 14000

    def gen(self, i, seed, tier):
        rng = random.Random('C06/%s/%s' % (seed, i))
        nodes = [(r, n) for r, ns in sorted(engine.catalog()['recipes'].items()) for n in ns if n['type'] == 'ComplexTriangularEuclidian3']

        def mesh():
            u = rng.random()
            if u < .08:
                return ['soup', rng.choice([1023, 1024, 1025, 1500, 2048, 2100, 4097, 5000]), rng.randrange(1000), rng.choice(['loose', 'fan', 'grid'])]
            if u < .35:
                return ['soup', rng.choice([1, 2, 3, 7, 40, 90, 150, 257, 300]), rng.randrange(1000), rng.choice(['loose', 'fan', 'grid'])]
            if u < .45:
                return ['sphere', rng.choice([0, 1, 2, 3])]
            r, n = rng.choice(nodes)
            return ['path', r, [n['steps'][k] for k in n['path']]]
        s = {'prop': 'C06', 'run': i, 'seed': rng.randrange(1 << 30), 'mesh': mesh(), 'mesh2': mesh(), 'mode': rng.choice(['line', 'instr']), 'kinds': [k for k in KINDS if rng.random() < .6] or KINDS,
             'm': 20, 'm2': 8}
        if rng.random() < .4:
            s['old'] = rng.choice([1, 5, 200])
        if i < 6:       # small meshes exhaustively
            s.update(mesh=[['soup', 1, 1, 'loose'], ['soup', 2, 2, 'fan'], ['soup', 4, 3, 'grid'], ['soup', 3, 3, 'fan'], ['soup', 8, 3, 'grid'], ['soup', 5, 4, 'loose']][i], m=100000, kinds=KINDS)
        return s

    def execute(self, spec):
        r = proc.forkrun(child, spec, timeout=300)
        if r[0] != 'ok':
            raise proc.HarnessError('run %s: %s' % (spec.get('run'), r))
        viol, log, faults, n = r[1]
        h = hashlib.sha1(json.dumps([spec['mesh'], log], default=str).encode()).hexdigest()
        return {'violations': viol, 'digest': h, 'nontrivial': n > 0, 'faults': faults, 'stats': {'saves_and_loads_judged': n},
                'sample': {'run': spec['run'], 'mesh': spec['mesh'], 'kinds': spec['kinds'], 'judged': n}}

    def shrink(self, spec):
        def cp(**k):
            c = copy.deepcopy(spec)
            c.update(k)
            return c
        if len(spec['kinds']) > 1:
            for k in spec['kinds']:
                yield cp(kinds=[k])
        if 'old' in spec:
            c = cp()
            del c['old']
            yield c
        for m in (['soup', 1, 1, 'loose'], ['soup', 2, 1, 'fan'], ['soup', 40, 1, 'grid']):
            if spec['mesh'] != m and spec['mesh'][:1] != ['soup']:
                yield cp(mesh=m)
