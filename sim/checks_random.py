"""C09: randomised mesh generators, with the random stream behind a seam."""
import collections
import copy
import hashlib
import json
import random
import _thread

import numpy as np

import core
import engine
import invariants as I
import proc
from checks_mesh import MeshCheck, STUB

KINDS = ['healthy', 'dup', 'cluster', 'tiny', 'grid', 'flat', 'zero', 'hemi', 'two', 'extreme', 'sorted', 'line']


# ----------------------------------------------------------------------------------------------------------
# the stream

class Stream(object):
    """what one caller draws from: a seeded stream, possibly a very unlucky one"""

    def __init__(self, seed, kind):
        self.rs = np.random.RandomState(seed)
        self.luck = np.random.RandomState(seed ^ 0x5bd1e995)
        self.kind = kind
        self.drawn = 0

    def bend(self, x):
        if self.kind == 'healthy' or not isinstance(x, np.ndarray) or x.ndim < 2 or x.dtype.kind != 'f' or not x.size:
            return x
        r, k = self.luck, self.kind
        lo, hi = x.min(), x.max()
        n = len(x)
        if k == 'dup' and n > 1:
            m = r.randint(1, n)
            x[r.randint(n, size=m)] = x[r.randint(n, size=m)]
        elif k == 'cluster':
            x = x.flat[0] + 1e-3 * (x - x.flat[0])
        elif k == 'tiny':
            x = x.flat[0] + 1e-9 * (x - x.flat[0])
        elif k == 'grid':
            x = np.round(x * 2) / 2
        elif k == 'flat':
            x[..., 0] = x.flat[0]
        elif k == 'zero':
            x = x * 0
        elif k == 'hemi':
            x = abs(x)
        elif k == 'two':
            x = np.where(np.arange(n).reshape((n,) + (1,) * (x.ndim - 1)) % 2, x[0], x[-1]) + 1e-6 * x
        elif k == 'extreme':
            x = np.where(x > np.median(x), hi, lo)
        elif k == 'sorted':
            x = np.sort(x, axis=0)
        elif k == 'line':
            x = x[:, :1] * np.ones_like(x) + 1e-5 * x
        return np.clip(x, min(lo, 0), hi)


streams = {}        # thread ident -> Stream
DRAWS = {}


def stream():
    return streams.get(_thread.get_ident())


def install():
    """every function of the process-wide generator draws from the calling thread's own stream"""
    for name in dir(np.random.RandomState):
        f = getattr(np.random, name, None)
        if name.startswith('_') or f is None or not callable(f) or isinstance(f, type) or getattr(f, '__self__', None) is None:
            continue

        def g(*a, _f=f, _name=name, **k):
            s = stream()
            if s is None:
                return _f(*a, **k)
            out = getattr(s.rs, _name)(*a, **k)
            if isinstance(out, np.ndarray):
                s.drawn += out.size
                out = s.bend(out)
            return out
        DRAWS[name] = f
        setattr(np.random, name, g)


# ----------------------------------------------------------------------------------------------------------
# the triangulator

class Hull(object):
    """triangulations of scipy, on demand failing or numbered differently"""

    def __init__(self):
        self.plan = {}      # thread ident -> [n, kind, seed]

    def wrap(self, real):
        outer = self

        def make(*a, **k):
            p = outer.plan.get(_thread.get_ident())
            if p:
                p[0] -= 1
                if p[0] == 0 and p[1] != 'shuffle':
                    p[3] = True
                    import scipy.spatial
                    err = {'qhull': getattr(scipy.spatial, 'QhullError', RuntimeError), 'value': ValueError, 'mem': MemoryError, 'runtime': RuntimeError}[p[1]]
                    raise type('Failing' + err.__name__, (core.InjectedFault, err), {})('triangulation failed')
            out = real(*a, **k)
            if p and p[1] == 'shuffle':
                p[3] = True
                return Shuffled(out, np.random.RandomState(p[2]))
            return out
        return make


class Shuffled(object):
    def __init__(self, real, r):
        self._real = real
        s = np.array(real.simplices)
        n, k = s.shape
        p = r.permutation(n)
        inv = np.argsort(p).astype(real.neighbors.dtype)
        q = np.array([r.permutation(k) for _ in range(n)])
        row = np.arange(n)[:, None]
        self.simplices = s[p][row, q]
        nb = np.array(real.neighbors)[p]
        nb = np.where(nb >= 0, inv[nb], nb)
        self.neighbors = nb[row, q]
        self.equations = np.array(real.equations)[p]

    def __getattr__(self, k):
        return getattr(self._real, k)


# ----------------------------------------------------------------------------------------------------------
# what a generated mesh has to be

def generate(op):
    from pycomplex import synthetic
    kw = dict(op['args'])
    if op['gen'] == 'sphere':
        return synthetic.optimal_delaunay_sphere(**kw)
    return synthetic.delaunay_cube(**kw)


def digest(x, s):
    h = hashlib.sha1()
    for a in [x.vertices] + list(x.topology.elements) + list(x.topology._orientation) + [getattr(x, 'weights', None)]:
        h.update(b'none' if a is None else (str(a.shape) + str(a.dtype)).encode() + np.ascontiguousarray(a).tobytes())
    h.update(type(x).__name__.encode())
    st = s.rs.get_state() if s is not None else np.random.get_state()
    h.update(np.ascontiguousarray(st[1]).tobytes() + repr(st[2:]).encode())
    return h.hexdigest()


def judge(op, x):
    """-> list of complaints"""
    r = I.Report(op['gen'])
    try:
        audit(op, x, r)
    except Exception as e:
        r.ok(False, 'arrays do not fit together', '%s: %s' % (type(e).__name__, str(e)[:150]))
    return r.out, r.n


def audit(op, x, r):
    a = op['args']
    d = a['n_dim']
    T, V = x.topology, x.vertices
    E = T.elements[-1]
    n = d - 1 if op['gen'] == 'sphere' else d
    r.ok(V.ndim == 2 and V.shape[1] == d and T.n_dim == n and E.shape[1] == n + 1, 'dimensions', '%s, %s' % (V.shape, E.shape))
    if not r.ok(bool(np.isfinite(V).all()), 'positions are not finite'):
        return
    r.ok(len(np.unique(V, axis=0)) == len(V), 'duplicate vertices')
    r.ok(np.array_equal(np.unique(E), np.arange(len(V))), 'vertices that are not part of any element')
    K = I.keys(E)
    r.ok(len(set(K)) == len(K) and all(len(set(k)) == len(k) for k in K), 'duplicate or degenerate elements')
    I.topology(T, r)
    ori = I.oriented(T)
    r.ok(bool(ori), 'elements are not oriented consistently')
    if not ori:
        return
    r.ok(I.components(T)[0] == 1, 'mesh is not connected')
    r.ok(I.vertex_manifold(T), 'mesh is not manifold at a vertex')
    bf = I.boundary_facets(T)
    if op['gen'] == 'sphere':
        r.ok(len(V) == a['n_points'], 'number of vertices', '%d, requested %d' % (len(V), a['n_points']))
        r.ok(np.allclose(np.linalg.norm(V, axis=1), 1, atol=1e-9), 'vertices are not on the sphere')
        r.ok(len(bf) == 0, 'sphere is not closed')
        r.ok(I.euler(T) == 1 + (-1) ** n, 'Euler characteristic', str(I.euler(T)))
        # all other vertices lie on one side of every element: no two elements overlap
        X = V[E]
        normal = np.linalg.svd(X[:, 1:] - X[:, :1])[2][:, -1] if d > 1 else None
        side = np.einsum('ec,vc->ev', normal, V) - np.einsum('ec,ec->e', normal, X[:, 0])[:, None]
        flat = np.linalg.svd(X[:, 1:] - X[:, :1], compute_uv=False)[:, -1] < 1e-5
        bad = (side.max(1) > 1e-6) & (side.min(1) < -1e-6) & ~flat
        r.ok(not bad.any(), 'triangulation is not convex')
        w = getattr(x, 'weights', None)
        r.ok(w is None or (np.shape(w) == (len(V),) and bool(np.isfinite(w).all())), 'weights')
    else:
        q = a['density']
        r.ok(V.min() >= 0 and V.max() <= 1, 'vertices outside of the unit cube')
        idx = np.indices((q + 1,) * d).reshape(d, -1).T
        want = set(map(tuple, idx[((idx == 0) | (idx == q)).any(axis=1)].tolist()))
        near = np.round(V * q)
        have = set(tuple(k) for k, e in zip(near.astype(int).tolist(), abs(V * q - near).max(1)) if e < 1e-9)
        r.ok(want <= have, 'boundary vertices', '%d of the requested ones are missing' % len(want - have))
        r.ok(abs(I.volume(V, E).sum() - 1) < 1e-7, 'volume', '%s, not that of the unit cube' % I.volume(V, E).sum())
        F = V[T.elements[-2].reshape(len(T.elements[-2]), -1)[bf]]
        on = (np.ptp(F, axis=1) == 0) & ((F[:, 0] == 0) | (F[:, 0] == 1))
        r.ok(on.any(axis=1).all(), 'boundary does not lie on the surface of the cube')
        if len(bf) and d > 1:
            f = T.elements[-2].reshape(len(T.elements[-2]), -1)[bf]
            area = I.volume(V, f).sum()
            r.ok(abs(area - 2 * d) < 1e-6, 'boundary area', '%s, want %d' % (area, 2 * d))
        X = V[E]
        v = np.linalg.det(X[:, 1:] - X[:, :1])
        r.ok((v > -1e-9).all() or (v < 1e-9).all(), 'elements are inside out')


# ----------------------------------------------------------------------------------------------------------

def attempt(op, raw):
    """one generation from a freshly seeded stream -> (mesh, stream)"""
    s = None
    if raw:
        np.random.seed(op['seed'])
    else:
        s = streams[_thread.get_ident()] = Stream(op['seed'], op['kind'])
    return generate(op), s


def reference(op, raw):
    if not raw:
        install()
    try:
        x, s = attempt(op, raw)
    except Exception as e:
        return {'digest': 'raises ' + type(e).__name__, 'viol': [], 'n': 0, 'text': str(e)[:80], 'drawn': None}
    v, n = judge(op, x)
    return {'digest': digest(x, s), 'viol': v, 'n': n, 'drawn': s.drawn if s else None, 'size': list(x.topology.n_elements)}


def child(spec):
    raw = spec.get('raw')
    import scipy.spatial
    hull = Hull()
    scipy.spatial.ConvexHull = hull.wrap(scipy.spatial.ConvexHull)
    scipy.spatial.Delaunay = hull.wrap(scipy.spatial.Delaunay)
    if not raw:
        install()
    log, viol = [], []
    n = [0]

    def bad(op, out):
        for v in out:
            viol.append(dict(v, op=op['i']))

    def mk(ops, tid):
        def body(sim, t):
            for op in ops:
                if op['gen'] == 'other':
                    sim.begin(t, 8 * op['i'], tuple(op['fault']) if op.get('fault') else None)
                    try:
                        other(op)
                    except (core.SimKilled, core.StepCap, core.Deadlock):
                        raise
                    except BaseException:
                        pass
                    sim.end(t)
                    continue
                tries = ([('fault', op['fault'])] if op.get('fault') else []) + ([('hull', op['hull'])] if op.get('hull') else []) + [(None, None)]
                for j, (what, arg) in enumerate(tries):
                    if what == 'hull':
                        hull.plan[_thread.get_ident()] = list(arg) + [False]
                    sim.begin(t, 8 * op['i'] + j, tuple(arg) if what == 'fault' else None)
                    try:
                        x, s = attempt(op, raw)
                        sim.end(t)
                    except (core.SimKilled, core.StepCap, core.Deadlock):
                        sim.end(t)
                        raise
                    except BaseException as e:
                        sim.end(t)
                        inj = core.carries_injection(e)
                        # a mesh refused for its own sake is a failure that was reported
                        log.append((tid, op['i'], 'injected' if inj else 'raise', 'raises ' + type(e).__name__, what, t.fired, None))
                    else:
                        v, k = judge(op, x)
                        n[0] += k
                        bad(op, v)
                        log.append((tid, op['i'], 'value', digest(x, s), what, t.fired, list(x.topology.n_elements)))
                    p = hull.plan.pop(_thread.get_ident(), None)
                    if p and p[3]:
                        log[-1] = log[-1][:5] + ('hull ' + p[1],) + log[-1][6:]
        return body
    sim = core.Sim([mk(o, i) for i, o in enumerate(spec['threads'])], engine.make_schedule(spec['sched']), spec['mode'], cap=30000000)
    sim.run()
    for t in sim.threads:
        if t.error is not None and not isinstance(t.error, (core.Deadlock, core.StepCap)):
            raise proc.HarnessError(t.tb)
    dead = [(sim.dead, [(t.tid, t.op, t.k) for t in sim.threads])] if sim.dead else []
    return {'log': log, 'viol': viol, 'n': n[0], 'switches': sim.switches, 'first': getattr(sim, 'first', 0), 'locs': sim.switch_locs,
            'faults': sim.fault_log, 'steps': sim.steps, 'dead': dead}


def other(op):
    """unrelated work in the same process"""
    from pycomplex import synthetic
    k = op['seed'] % 5
    if k == 0:
        synthetic.icosphere(1).metric
    elif k == 1:
        synthetic.n_simplex(3).subdivide_fundamental().metric
    elif k == 2:
        synthetic.n_cube_grid((2, 3)).as_22().subdivide_simplicial().topology.dual.matrices
    elif k == 3:
        synthetic.n_cube_dual(4).metric
    else:
        synthetic.n_simplex(2).subdivide_cubical().boundary


class C09(MeshCheck):
    prop = 'C09'
    real = ['pycomplex.synthetic.optimal_delaunay_sphere and delaunay_cube and everything in pycomplex they call', 'scipy.spatial (qhull), numpy, numpy_indexed, pycosat (as installed)']
    stub = STUB + ['the process-wide random stream (one seeded stream per caller, bent into unlucky draws; a fifth of the runs keep the real one)',
                   'the triangulator, where it is made to fail or to number its simplices differently']
    rule = ('one run = 1-3 callers that generate 1-3 meshes each from freshly seeded streams (healthy ones and eleven kinds of unlucky ones), mixed with unrelated work, cut short by '
            'injected exceptions, failing or renumbering triangulations, then reseeded and retried; every mesh is audited and compared bit by bit (with the state of the '
            'stream) to the generation alone in a fresh process; non-trivial = a fault, a preemption or a second generation; distinct by event log')
    assumptions = ['one random stream per caller thread (threads drawing from one stream are not repeatable by definition)', 'sizes up to 40 points on spheres of dimension 1-3 and cubes of 2-4 dimensions with density up to 6']

    def runs(self, tier):
        return 900 if tier == 'quick' else 40000

    def one(self, rng, ids):
        if rng.random() < .55:
            d = rng.choice([2, 3, 3, 3, 4])
            a = {'n_points': rng.choice([d + 1, d + 2, 6, 9, 14, 20, 30, 40]), 'n_dim': d, 'iterations': rng.choice([1, 1, 2, 4]), 'weights': rng.random() < .5,
                 'push_iterations': rng.choice([0, 1, 2, 4]), 'condition': rng.choice(['delaunay', 'centered', None])}
            if a['n_points'] < d + 1:
                a['n_points'] = d + 1
            if d == 4:
                a['n_points'] = min(a['n_points'], 20)
            o = {'gen': 'sphere', 'args': a}
        else:
            d = rng.choice([2, 2, 2, 3, 4])
            a = {'density': rng.choice([1, 2, 3, 4, 6] if d == 2 else [1, 2, 3] if d == 3 else [1]), 'n_dim': d, 'iterations': rng.choice([0, 1, 2, 4] if d < 4 else [0, 1])}
            o = {'gen': 'cube', 'args': a}
        o['seed'] = rng.randrange(1 << 30)
        o['kind'] = rng.choice(KINDS) if rng.random() < .5 else 'healthy'
        return o

    def build(self, rng, i, seed, tier):
        ids = iter(range(10 ** 6))
        raw = rng.random() < .2
        pool = [self.one(rng, ids) for _ in range(rng.choice([1, 2]))]
        threads = []
        for t in range(1 if raw else rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                if rng.random() < .2:
                    o = {'gen': 'other', 'seed': rng.randrange(100)}
                else:
                    o = copy.deepcopy(rng.choice(pool))
                    if raw:
                        o['kind'] = 'healthy'
                    if rng.random() < .25:
                        o['hull'] = [rng.choice([1, 1, 2, 3, 5]), rng.choice(['shuffle', 'shuffle', 'qhull', 'value', 'mem', 'runtime']), rng.randrange(1 << 30)]
                o['i'] = next(ids)
                if rng.random() < .5:
                    o['fault'] = [int(10 ** rng.uniform(0, 3.6)), rng.choice(core.FAULT_KINDS)]
                ops.append(o)
            threads.append(ops)
        pol = rng.choice(['walk', 'walk', 'pct', 'hold'])
        return {'prop': 'C09', 'run': i, 'seed': seed, 'mode': rng.choice(['line', 'line', 'instr']), 'raw': raw, 'threads': threads,
                'sched': {'policy': pol, 'p': rng.choice([.3, .05, .01]) if pol == 'walk' else rng.choice([1, 2, 3, 6]), 'seed': rng.randrange(1 << 30), 'est': 3000}}

    def execute(self, spec):
        spec = self.materialise(spec)
        r = proc.forkrun(child, spec, timeout=240)
        if r[0] != 'ok':
            raise proc.HarnessError('run %s: %s' % (spec.get('run'), r))
        res = r[1]
        viol = [{'kind': v['kind'], 'step': v['step'], 'detail': v['detail']} for v in res['viol']]
        viol += [{'kind': d[0], 'step': '', 'detail': 'no progress: %s' % (d[1],)} for d in res['dead']]
        refs = {}
        ops = {o['i']: o for th in spec['threads'] for o in th}
        naudit = res['n']
        for tid, i, outcome, dig, what, fired, size in res['log']:
            op = ops[i]
            key = json.dumps([op['gen'], op['args'], op['seed'], op['kind'], bool(spec.get('raw'))], sort_keys=True)
            if key not in refs:
                q = proc.forkrun(reference, op, spec.get('raw'), timeout=240)
                if q[0] != 'ok':
                    raise proc.HarnessError('reference of run %s: %s' % (spec.get('run'), q))
                refs[key] = q[1]
                naudit += q[1]['n']
                viol += q[1]['viol']
            ref = refs[key]
            name = '%s %s seed %d stream %s' % (op['gen'], op['args'], op['seed'], op['kind'])
            if outcome == 'injected':
                continue
            if fired and str(fired).startswith('hull'):
                # another numbering or a failing triangulation: a valid mesh, or a reported failure
                continue
            if dig != ref['digest']:
                viol.append({'kind': 'not repeatable', 'step': op['gen'], 'detail': '%s gave %s %s, alone in a fresh process %s %s' % (name, dig[:24], size, ref['digest'][:24], ref.get('size'))})
            if op['kind'] == 'healthy' and ref['digest'].startswith('raises') and (op['gen'] == 'cube' or op['args']['n_points'] >= 9 and op['args']['push_iterations'] > 0):
                viol.append({'kind': 'refused', 'step': op['gen'], 'detail': '%s %s: %s' % (name, ref['digest'], ref.get('text'))})
        if not viol and not spec.get('raw'):
            # another stream, another mesh
            op = next((o for o in ops.values() if o['gen'] == 'sphere' or o['gen'] == 'cube' and o['args']['density'] > 2), None)
            if op is not None and op['kind'] == 'healthy' and spec['run'] % 4 == 0:
                a = proc.forkrun(reference, op, False, timeout=240)[1]
                b = proc.forkrun(reference, dict(op, seed=op['seed'] + 1), False, timeout=240)[1]
                if a['digest'] == b['digest'] or not a['drawn']:
                    viol.append({'kind': 'stream ignored', 'step': op['gen'], 'detail': '%s does not depend on the stream' % op['args']})
        h = hashlib.sha1(json.dumps([res['log'], res['switches'], res['first'], res['faults'], res['steps']], default=str).encode()).hexdigest()
        out = collections.Counter(o[2] for o in res['log'])
        inter = hashlib.sha1(json.dumps(res['locs']).encode()).hexdigest()[:16] if res['locs'] else None
        f = collections.Counter(x[3] for x in res['faults'])
        f.update(o[5] for o in res['log'] if o[5] and str(o[5]).startswith('hull'))
        f.update('stream ' + o['kind'] for o in ops.values() if o.get('kind', 'healthy') != 'healthy')
        return {'violations': viol, 'digest': h, 'pin': (res['switches'], res['first']), 'spec': spec, 'nontrivial': bool(res['locs'] or res['faults'] or len(res['log']) > 1),
                'interleavings': [inter] if inter else [], 'faults': dict(f),
                'stats': {'generations': len(res['log']), 'generated_meshes': out['value'], 'generations_aborted': out['injected'], 'generations_refused': out['raise'],
                          'invariants_checked': naudit, 'reference_generations': len(refs), 'simulated_events': res['steps'], 'context_switches': len(res['locs'])},
                'sample': {'run': spec['run'], 'raw': spec.get('raw'), 'ops': [[(o['gen'], o.get('args'), o.get('kind'), o.get('fault'), o.get('hull')) for o in th] for th in spec['threads']]}}

    def shrink(self, spec):
        spec = self.materialise(spec)
        yield from MeshCheck.shrink(self, spec)
        for t, th in enumerate(spec['threads']):
            for j, o in enumerate(th):
                if o.get('hull'):
                    c = copy.deepcopy(spec)
                    c['threads'][t][j].pop('hull')
                    yield c
                if o.get('kind', 'healthy') != 'healthy':
                    c = copy.deepcopy(spec)
                    c['threads'][t][j]['kind'] = 'healthy'
                    yield c
                for k, vals in (('n_points', (6,)), ('iterations', (1, 0)), ('push_iterations', (0,)), ('density', (2,))):
                    for v in vals:
                        if o.get('args', {}).get(k, 0) > v:
                            c = copy.deepcopy(spec)
                            c['threads'][t][j]['args'][k] = v
                            yield c
