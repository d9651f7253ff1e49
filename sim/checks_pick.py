"""C07: sessions of point location queries with remembered hints."""
import copy
import hashlib
import json
import random

import numpy as np
import scipy.spatial

import core
import engine
import proc
from driver import Check

TOL = 1e-7


# ----------------------------------------------------------------------------------------------------------
# meshes

def build(m):
    c = unweighted(m)
    if m[3:] == ['w']:
        x = c.vertices[c.topology.elements[1]]
        c = c.copy(weights=np.random.RandomState(m[2]).uniform(0, .03 * ((x[:, 0] - x[:, 1]) ** 2).sum(1).min(), len(c.vertices)))
    return c


def unweighted(m):
    from pycomplex import synthetic
    kind, a, seed = m[0], m[1], m[2]
    r = np.random.RandomState(seed)
    if kind == 'regular':
        c = synthetic.n_cube_grid(tuple(a))
        n = len(a)
        c = getattr(c, 'as_%d%d' % (n, n))().as_regular() if hasattr(c, 'as_%d%d' % (n, n)) else c.as_regular()
        opt = m[3]
        if opt == 'stretch':
            c = c.copy(vertices=c.vertices * r.uniform(.3, 3, n) + r.randn(n))
        elif opt == 'subdivide':
            c = c.subdivide_cubical()
        elif opt == 'subset':
            k = c.topology.n_elements[-1]
            keep = np.zeros(k, np.int8)
            keep[r.permutation(k)[:max(1, (2 * k) // 3)]] = 1
            c = c.select_subset(keep)
        elif opt == 'shift':
            c = c.copy(vertices=c.vertices - 100)
        return c
    if kind == 'tri':
        from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2
        n = a
        v, t = [], []
        for i in range(n + 1):
            for j in range(n + 1):
                v.append([i + .5 * j, j * np.sqrt(3) / 2])
        for i in range(n):
            for j in range(n):
                b = i * (n + 1) + j
                t += [[b, b + n + 1, b + 1], [b + 1, b + n + 1, b + n + 2]]
        v = np.array(v) + .08 * r.uniform(-1, 1, (len(v), 2)) * bool(seed)
        if seed % 3 == 1:
            v = v * 40 - 7
        if seed % 4 == 1:
            t = [t[k] for k in r.permutation(len(t))]
        return ComplexTriangularEuclidian2(vertices=v, triangles=t)
    if kind == 'simplex':
        return synthetic.n_simplex(a)
    if kind == 'ico':
        c = synthetic.icosphere(a)
        if seed % 3 == 1:
            c = c.copy(vertices=c.vertices.dot(np.linalg.qr(r.randn(3, 3))[0]))
        if seed % 4 == 1:
            c = c.optimize_weights_metric()
        elif seed % 4 == 2:
            k = c.topology.n_elements[2]
            c = c.select_subset((c.primal_position[2][:, 2] > -.2).astype(np.int8))
        return c
    if kind == 'icoR':
        c = synthetic.icosphere(a)
        c = c.copy(radius=r.choice([.3, 2., 7.]))
        return c
    if kind == 'bcc':       # tetrahedra around a body-centred lattice
        from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
        g = np.array(list(np.ndindex(a, a, a)), float)
        p = np.concatenate([g, g[(g < a - 1).all(1)] + .5])
        t = scipy.spatial.Delaunay(p + 1e-3 * r.uniform(-1, 1, p.shape) * bool(seed)).simplices
        x = p[t]
        edge = np.linalg.norm(x[:, :, None] - x[:, None], axis=-1).max((1, 2))
        t = t[(edge < 1.01) & (np.abs(np.linalg.det(x[:, 1:] - x[:, :1])) > .4)]
        used = np.unique(t)
        return ComplexSimplicialEuclidian(vertices=p[used], simplices=np.searchsorted(used, t))
    if kind == 'hull':
        from pycomplex.complex.simplicial.spherical import ComplexSpherical2
        from pycomplex.topology.simplicial import TopologyTriangular
        p = r.randn(a, 3)
        p /= np.linalg.norm(p, axis=1, keepdims=True)
        for _ in range(10):     # spread them out
            d = p[:, None] - p[None]
            p = p + .1 / a * (d / (1e-3 + (d ** 2).sum(-1, keepdims=True) ** 1.5)).sum(1)
            p /= np.linalg.norm(p, axis=1, keepdims=True)
        t = TopologyTriangular.from_simplices(scipy.spatial.ConvexHull(p).simplices).fix_orientation()
        return ComplexSpherical2(vertices=p, topology=t)
    if kind == 'circle':
        return synthetic.n_cube_dual(2) if a == 0 else synthetic.n_cube_dual(2).subdivide_fundamental()
    if kind == 'dual':
        return synthetic.n_cube_dual(a)
    raise KeyError(kind)


class Model(object):
    """where points are, worked out without the code under test's own picking"""

    def __init__(self, c):
        self.c = c
        self.regular = 'Regular' in type(c).__name__
        self.sphere = 'Spherical' in type(c).__name__ or 'Circular' in type(c).__name__
        E = np.asarray(c.topology.elements[-1])
        self.n = len(E)
        self.V = np.asarray(c.vertices)[E.reshape(len(E), -1)]
        if not self.regular:
            self.inv = np.linalg.inv(self.hom(self.V))

    def hom(self, p):
        return p if self.sphere else np.concatenate([p, np.ones(p.shape[:-1] + (1,))], axis=-1)

    def points(self, rng, el, spread):
        """points inside the given elements; spread: how close to their faces"""
        n = len(el)
        if self.regular:
            u = rng.uniform(0, 1, (n, self.V.shape[-1]))
            if spread:
                u = np.where(rng.uniform(size=u.shape) < .5, u, np.clip(np.round(u) + rng.uniform(-1, 1, u.shape) * 10. ** -rng.randint(1, 6, u.shape), 0, 1))
            lo, hi = self.V[el][:, 0], self.V[el][:, -1]
            return lo + u * (hi - lo)
        w = rng.dirichlet(np.ones(self.V.shape[1]), n)
        if spread:
            e = 10. ** -rng.randint(1, 6, n)
            k = rng.randint(w.shape[1], size=n)
            w[np.arange(n), k] *= np.where(rng.uniform(size=n) < .7, e, 0 if spread > 1 else e)
        p = np.einsum('pi,pic->pc', w / w.sum(1, keepdims=True), self.V[el])
        if self.sphere:
            p = p / np.linalg.norm(p, axis=1, keepdims=True) * self.c.radius
        return p

    def bary(self, el, p):
        if self.regular:
            lo, hi = self.V[el][:, 0], self.V[el][:, -1]
            return (p - lo) / (hi - lo)
        b = np.einsum('pcv,pc->pv', self.inv[el], self.hom(p))
        return b / b.sum(axis=1, keepdims=True)

    def margin(self, b):
        return np.minimum(b, 1 - b).min(axis=1) if self.regular else b.min(axis=1)


def query(c, q, P, hint):
    if q['what'] == 'primal':
        if q.get('unweighted'):
            r = c.pick_primal(P, hint, weighted=False) if hint is not None else c.pick_primal(P, weighted=False)
        else:
            r = c.pick_primal(P, hint) if hint is not None else c.pick_primal(P)
    else:
        r = c.pick_fundamental(P, hint) if hint is not None else c.pick_fundamental(P)
    return r


def judge_primal(m, el, P, r):
    """what is wrong with an answer for points known to lie in el"""
    i, b = np.asarray(r[0]), np.asarray(r[1])
    n = len(P)
    if i.shape != (n,) or len(b) != n:
        return 'answer has the wrong shape'
    if n == 0:
        return None
    if not np.issubdtype(i.dtype, np.integer):
        return 'indices are not integers'
    if i.min() < 0 or i.max() >= m.n:
        return 'index out of range'
    t = m.bary(el, P)
    bad = (i != el) & (m.margin(t) > TOL)
    w = m.bary(i, P)
    bad |= m.margin(w) < -TOL
    if bad.any():
        k = int(np.flatnonzero(bad)[0])
        return 'point %d lies in element %d (margin %.3g); answer %d (margin %.3g)' % (k, el[k], m.margin(t)[k], i[k], m.margin(w)[k])
    if np.abs(w - b).max() > 1e-6:
        return 'coordinates are not those of the point in the element (off by %.3g)' % np.abs(w - b).max()
    return None


def judge_fund(m, P, r, fresh):
    """containment in the returned domain, and agreement with the fresh answer away from domain boundaries"""
    c = m.c
    PP = c.primal_position
    n = len(P)
    if m.regular:
        d, b = np.asarray(r[0]), np.asarray(r[1])
        if len(d) != n or b.shape != P.shape:
            return 'answer has the wrong shape'
        if n == 0:
            return None
        d = d.reshape(n, -1)
        lo, hi = PP[0][d[:, 0]], PP[-1][d[:, -1]]
        w = (P - lo) / (hi - lo)
        if np.abs(w - b).max() > 1e-6:
            return 'coordinates are not those of the point in the domain'
        mg = np.minimum(w, 1 - w).min(axis=1)
        same = (d == np.asarray(fresh[0]).reshape(n, -1)).all(axis=1)
    else:
        i, b, d = [np.asarray(x) for x in r]
        if i.shape != (n,) or len(b) != n or len(d) != n:
            return 'answer has the wrong shape'
        if n == 0:
            return None
        X = np.stack([PP[k][d[:, k]] for k in range(d.shape[1])], axis=1)
        w = np.einsum('pcv,pc->pv', np.linalg.inv(m.hom(X)), m.hom(P))
        w = w / w.sum(axis=1, keepdims=True)
        if np.abs(np.sort(w, axis=1) - np.sort(b, axis=1)).max() > 1e-5:
            return 'coordinates are not those of the point in the domain'
        mg = w.min(axis=1)
        same = (d == np.asarray(fresh[2])).all(axis=1) & (i == np.asarray(fresh[0]))
    bad = (mg < -TOL) | (~same & (mg > TOL))
    if bad.any():
        k = int(np.flatnonzero(bad)[0])
        return 'point %d: margin in the returned domain %.3g, %s as without hint' % (k, mg[k], 'same domain' if same[k] else 'not the same domain')
    return None


def child(spec):
    meshes = [build(x) for x in spec['meshes']]
    fresh_meshes = [build(x) for x in spec['meshes']]
    models = [Model(x) for x in fresh_meshes]
    viol, log, stats = [], [], {}
    fund_rows = {}

    def rows(k):
        if k not in fund_rows:
            m = models[k]
            t = m.c.topology
            fund_rows[k] = int(np.prod(t.cubical_domains().shape[:-m.V.shape[-1]])) if m.regular else len(t.fundamental_domains().reshape(-1, t.n_dim + 1))
        return fund_rows[k]

    def mk(session, tid):
        def body(sim, t):
            memory = []         # (mesh, what, answer)
            rng = np.random.RandomState(session['seed'])
            el = {}
            for si, q in enumerate(session['steps']):
                k = q['mesh']
                m = models[k]
                n = session['n']
                if k not in el or q['move'] == 'jump':
                    el[k] = rng.randint(m.n, size=n)
                elif q['move'] == 'some':
                    s = rng.uniform(size=n) < .3
                    el[k] = np.where(s, rng.randint(m.n, size=n), el[k])
                elif q['move'] == 'next':
                    el[k] = np.where(rng.uniform(size=n) < .5, (el[k] + rng.randint(-1, 2, size=n)) % m.n, el[k])
                P = m.points(rng, el[k], q['spread'])
                N = m.n if q['what'] == 'primal' else rows(k)
                hint = None
                h = q['hint']
                if h != 'none':
                    same = [x for x in memory if x[1] == q['what']]
                    if h == 'last' and same:
                        hint = same[-1][2]
                    elif h in ('stale', 'permuted', 'foreign') and same:
                        hint = same[rng.randint(len(same))][2]
                        if h == 'permuted':
                            hint = hint[rng.permutation(len(hint))]
                    elif h == 'truth' and q['what'] == 'primal':
                        hint = el[k].copy()
                    elif h == 'constant':
                        hint = np.full(n, rng.randint(N))
                    else:
                        hint = rng.randint(N, size=n)
                    hint = np.asarray(hint)
                    if hint.size and (hint.max() >= N or hint.min() < 0):
                        hint = hint % N
                    dt = np.dtype(q['dtype'])
                    if N > np.iinfo(dt).max:
                        dt = np.dtype('int64')
                    if h != 'last' or hint.dtype != dt:
                        hint = hint.astype(dt)
                    if q.get('frozen'):
                        hint = hint.copy()
                        hint.setflags(write=False)
                    elif q.get('strided'):
                        hint = np.repeat(hint, 2)[::2]
                P.setflags(write=False)
                before = None if hint is None else hint.copy()
                held = [x.copy() for _, _, x in memory]
                where = '%s on %s, step %d of session %d, hint %s (%s)' % (q['what'], json.dumps(spec['meshes'][k]), si, tid, h, q['dtype'])
                for fault in ([q['fault'], None] if q.get('fault') else [None]):
                    sim.begin(t, 2 * si + (fault is None), tuple(fault) if fault else None)
                    try:
                        r = query(meshes[k], q, P, hint)
                        sim.end(t)
                        out = 'value'
                    except (core.SimKilled, core.StepCap, core.Deadlock):
                        raise
                    except BaseException as e:
                        sim.end(t)
                        out = 'injected' if core.carries_injection(e) else 'raise'
                        r = e
                    stats['queries'] = stats.get('queries', 0) + 1
                    if hint is not None and not (hint.shape == before.shape and hint.dtype == before.dtype and (hint == before).all()):
                        viol.append({'kind': 'hint-modified', 'step': q['what'], 'detail': '%s: the hint array of the caller was modified' % where})
                    for (a, b, x), y in zip(memory, held):
                        if not np.array_equal(x, y):
                            viol.append({'kind': 'hint-modified', 'step': q['what'], 'detail': '%s: a result remembered from an earlier step was modified' % where})
                    log.append((tid, si, out, t.k, hashlib.sha1(np.ascontiguousarray(r[0]).tobytes()).hexdigest()[:8] if out == 'value' else type(r).__name__))
                    if out == 'injected':
                        continue
                    try:
                        f, fe = query(fresh_meshes[k], q, P, None), None
                    except Exception as e:
                        f, fe = None, type(e).__name__
                    if out == 'raise' and type(r).__name__ == fe:
                        continue
                    if out == 'raise':
                        viol.append({'kind': 'pick-raises', 'step': q['what'], 'detail': '%s: raised %s: %s' % (where, type(r).__name__, str(r)[:100])})
                        continue
                    if fe:
                        viol.append({'kind': 'missing-error', 'step': q['what'], 'detail': '%s: answered, without hint it raises %s' % (where, fe)})
                        continue
                    stats['queries_answered'] = stats.get('queries_answered', 0) + 1
                    if q['what'] == 'primal':
                        w = judge_primal(m, el[k], P, f)
                        if w:
                            viol.append({'kind': 'fresh-wrong', 'step': q['what'], 'detail': '%s: the query without hint is wrong: %s' % (where, w)})
                        w = judge_primal(m, el[k], P, r)
                    else:
                        w = judge_fund(m, P, r, f)
                    if w:
                        viol.append({'kind': 'hint-wrong', 'step': q['what'], 'detail': '%s: %s' % (where, w)})
                    if q['what'] == 'primal' or not m.regular:
                        memory.append((k, q['what'], r[0]))
        return body
    # one more pass keeps lazily precomputed structures in the interleaving: nothing is picked before the sessions start
    sim = core.Sim([mk(s, i) for i, s in enumerate(spec['sessions'])], engine.make_schedule(spec['sched']), spec['mode'], cap=30000000)
    sim.run()
    if sim.dead:
        viol.append({'kind': sim.dead[0] if isinstance(sim.dead, tuple) else str(sim.dead), 'step': '', 'detail': 'no progress'})
    for t in sim.threads:
        if t.error is not None and not isinstance(t.error, (core.Deadlock, core.StepCap)):
            raise proc.HarnessError(t.tb)
    return {'viol': viol, 'log': log, 'switches': sim.switches, 'first': getattr(sim, 'first', 0), 'locs': sim.switch_locs, 'faults': sim.fault_log, 'steps': sim.steps, 'stats': stats}


class C07(Check):
    prop = 'C07'
    real = ['pick_primal, pick_fundamental, their precomputations and everything below (KD-trees of scipy included)']
    stub = ['thread scheduler', 'failures raised by the simulator']
    rule = ('one run = 1-3 sessions of 4-10 picking queries over 1-2 shared meshes (regular grids in 1-4 d, flat, spatial and spherical simplicial meshes, some with weights; up to 3000 points), points move or jump, some within '
            '1e-5 of element boundaries; hints are none, last, stale, permuted, foreign, constant, random or true, in several integer types, read-only or strided; sessions are '
            'preempted and queries cut short and retried; every answer is judged against independent point location and the hint-free answer')
    assumptions = ['hints are in range', 'regular grids have cells of equal size', 'points within 1e-7 of a boundary may be answered either way']

    def runs(self, tier):
        return 5000 if tier == 'quick' else 200000

    def gen(self, i, seed, tier):
        rng = random.Random('C07/%s/%s' % (seed, i))

        def mesh():
            u = rng.random()
            s = rng.randrange(1000)
            if u < .35:
                return ['regular', rng.choice([[3], [8], [1], [3, 2], [1, 2], [6, 5], [2, 3, 2], [1, 1, 1], [4, 3, 2], [2, 1, 2, 1]]), s, rng.choice(['', 'stretch', 'subdivide', 'subset', 'shift'])]
            if u < .37:
                return ['regular', rng.choice([[20, 15], [70], [9, 8, 7]]), s, rng.choice(['', 'stretch', 'subset'])]
            if u < .42:
                return ['bcc', rng.choice([3, 3, 4]), s] + rng.choice([[], ['w']])
            if u < .44:
                return ['tri', 14, s]
            if u < .6:
                return ['tri', rng.choice([1, 2, 3, 6]), s] + rng.choice([[], [], ['w']])
            if u < .65:
                return ['simplex', rng.choice([1, 2]), s]
            if u < .83:
                return [rng.choice(['ico', 'ico', 'ico', 'icoR']), rng.choice([0, 1, 1, 2]), s]
            if u < .92:
                return ['hull', rng.choice([12, 24, 60]), s]
            if u < .95:
                return ['circle', rng.randrange(2), s]
            return ['dual', rng.choice([2, 3, 4]), s]
        meshes = [mesh() for _ in range(rng.choice([1, 1, 2]))]
        mode = rng.choice(['line', 'line', 'instr'])

        def step():
            k = rng.randrange(len(meshes))
            kind = meshes[k][0]
            q = {'mesh': k, 'what': 'primal' if kind in ('hull', 'simplex', 'bcc') or rng.random() < .6 else 'fundamental', 'move': rng.choice(['stay', 'next', 'some', 'jump']),
                 'spread': rng.choice([0, 0, 1, 2]), 'hint': rng.choice(['none', 'last', 'last', 'stale', 'permuted', 'foreign', 'constant', 'random', 'truth']),
                 'dtype': rng.choice(['int64', 'int64', 'int32', 'int32', 'int16', 'uint32', 'uint64', 'uint8'])}
            if rng.random() < .2:
                q['frozen'] = 1
            elif rng.random() < .2:
                q['strided'] = 1
            if kind in ('tri', 'ico', 'bcc') and rng.random() < .1:
                q['unweighted'] = 1
            if rng.random() < .3:
                n = 3000 if mode == 'instr' else 300
                q['fault'] = [1 + int(n ** rng.random()) if rng.random() < .7 else rng.randrange(1, n), rng.choice(core.FAULT_KINDS)]
            return q
        T = rng.choice([1, 1, 2, 3])
        sessions = [{'seed': rng.randrange(1 << 30), 'n': rng.choice([1, 2, 7, 40, 40, 140, 400] if rng.random() < .96 else [0, 1500, 3000]), 'steps': [step() for _ in range(rng.choice([3, 5, 8]))]} for _ in range(T)]
        pol = rng.choice(['walk', 'walk', 'pct', 'hold'])
        return {'prop': 'C07', 'run': i, 'meshes': meshes, 'sessions': sessions, 'mode': mode,
                'sched': {'policy': pol, 'p': rng.choice([.2, .05, .01, .002]) if pol == 'walk' else rng.choice([1, 2, 4]), 'seed': rng.randrange(1 << 30), 'est': 3000}}

    def execute(self, spec):
        r = proc.forkrun(child, spec, timeout=240)
        if r[0] != 'ok':
            raise proc.HarnessError('run %s: %s' % (spec.get('run'), r))
        res = r[1]
        h = hashlib.sha1(json.dumps([spec['meshes'], res['log'], res['switches'], res['faults']], default=str).encode()).hexdigest()
        faults = {}
        for f in res['faults']:
            faults[f[3]] = faults.get(f[3], 0) + 1
        for s in spec['sessions']:
            for q in s['steps']:
                k = 'hint ' + q['hint']
                faults[k] = faults.get(k, 0) + 1
        inter = hashlib.sha1(json.dumps(res['locs']).encode()).hexdigest()[:16] if res['locs'] else None
        return {'violations': res['viol'], 'digest': h, 'spec': spec, 'pin': (res['switches'], res['first']), 'nontrivial': any(q['hint'] != 'none' for s in spec['sessions'] for q in s['steps']),
                'interleavings': [inter] if inter else [], 'faults': faults, 'stats': dict(res['stats'], simulated_events=res['steps'], context_switches=len(res['locs'])),
                'sample': {'run': spec['run'], 'meshes': spec['meshes'], 'sessions': spec['sessions'][:1]}}

    def pin(self, spec, result):
        s = copy.deepcopy(spec)
        s['sched'] = {'explicit': result['pin'][0], 'first': result['pin'][1]}
        return s

    def shrink(self, spec):
        def cp():
            return copy.deepcopy(spec)
        if spec['sched'].get('explicit'):
            c = cp()
            c['sched']['explicit'] = []
            yield c
        for i in range(len(spec['sessions'])):
            if spec['sessions'][i]['steps']:
                c = cp()
                c['sessions'][i]['steps'] = []
                yield c
            for j in range(len(spec['sessions'][i]['steps'])):
                c = cp()
                del c['sessions'][i]['steps'][j]
                yield c
        for i in range(len(spec['sessions'])):
            for n in (1, 2, 7, 40, 140):
                if spec['sessions'][i]['n'] > n:
                    c = cp()
                    c['sessions'][i]['n'] = n
                    yield c
            for j in range(len(spec['sessions'][i]['steps'])):
                for k in ('fault', 'frozen', 'strided', 'unweighted'):
                    if spec['sessions'][i]['steps'][j].get(k):
                        c = cp()
                        del c['sessions'][i]['steps'][j][k]
                        yield c
        n = len(spec['sched'].get('explicit') or [])
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                c = cp()
                del c['sched']['explicit'][a:a + size]
                yield c
            size //= 2
