"""C03: iterative solvers whose operators fail, that are interrupted, resumed, and that share one equation and its hierarchy."""
import copy
import hashlib
import json
import random

import numpy as np

import canon
import core
import engine
import proc
from checks_mesh import MeshCheck, mkspec, duel, barrage
from checks_stencil import Gate, ERR, wrapped

EPS = 1e-4


# ----------------------------------------------------------------------------------------------------------
# what is solved

def _classes(gate, bits):
    """equations and complexes whose operators are the caller's, on every level of the hierarchy"""
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.diffusion import Diffusion
    from pycomplex.stencil.operator import ZeroOperator
    from cached_property import cached_property

    class GatedComplex(StencilComplex):
        @cached_property
        def coarsen(self):
            ops = [T * S for T, S in zip(self.topology.transfers, self.smoothers(scale=True))]
            return [wrapped(gate, o) if bits[i % len(bits)] else o for i, o in enumerate(ops)]

        @cached_property
        def refine(self):
            ops = [(T * S).transpose() for T, S in zip(self.topology.transfers, self.smoothers(scale=False))]
            return [wrapped(gate, o) if bits[(i + 1) % len(bits)] else o for i, o in enumerate(ops)]

    class GatedDiffusion(Diffusion):
        @classmethod
        def formulate(cls, complex, fields, fine=None):
            return gated(super().formulate(complex, fields, fine))

        @classmethod
        def formulate_flux_only(cls, complex, fields, fine=None):
            return gated(super().formulate_flux_only(complex, fields, fine))

        @classmethod
        def formulate_all(cls, complex, fields, fine=None):
            return gated(super().formulate_all(complex, fields, fine))

    def gated(eq):
        b = eq.system.A.block
        for i in range(b.shape[0]):
            for j in range(b.shape[1]):
                if not isinstance(b[i, j], ZeroOperator) and bits[(2 * i + j) % len(bits)]:
                    b[i, j] = wrapped(gate, b[i, j])
        return eq
    return GatedComplex, GatedDiffusion


def fields(c, t):
    r = np.random.RandomState(t['fseed'])
    ne = c.topology.n_elements
    f = {'constraint': r.uniform(.1, 1, ne[0]), 'conductance': r.uniform(.5, 1, ne[1]), 'resistance': r.uniform(.5, 1, ne[1]), 'foo': np.ones(ne[1])}
    if t.get('foo'):
        f['foo'] = np.random.RandomState(t['fseed'] + 1).uniform(.7, 1, ne[1])
    if t.get('uniform'):
        f['conductance'] = np.ones(ne[1])
        f['resistance'] = np.ones(ne[1])
    if t.get('off'):                     # a region that conducts nothing
        f['conductance'][..., :1] = 0
    return f


class Problem(object):
    """an equation with its hierarchy and the vectors of its callers; built afresh, or shared"""

    def __init__(self, t, gate):
        self.t = t
        self.vectors = {}
        self.lists = {}
        self.extra = None
        k = t['kind']
        if k in ('mg', 'eq'):
            C, D = _classes(gate, t['bits'])
            c = C.from_shape(tuple(t['shape']), t['scale'])
            self.fields = fields(c, t)
            self.eq = getattr(D, t['how'])(c, self.fields)
            self.given = [self.fields[n] for n in sorted(self.fields)]
            s = self.eq.system
            self.shapes = {'x': [c.n_elements[int(n)] for n in s.R], 'y': [c.n_elements[int(n)] for n in s.L]}
        elif k == 'cg':
            r = np.random.RandomState(t['fseed'])
            n = t['n']
            A = r.randn(n, n)
            A = A.T @ A / n + np.eye(n)
            if t.get('spread'):
                Q, _ = np.linalg.qr(r.randn(n, n))
                A = Q @ np.diag(np.logspace(0, t['spread'], n)) @ Q.T
                A = (A + A.T) / 2
            B, _ = np.linalg.qr(r.randn(n, max(t['m'], 1)))
            B = B[:, :t['m']]
            self.A, self.B = A, B
            shape = tuple(t['shape'])

            def operator(x):
                gate.hit()
                return (A @ x.ravel()).reshape(shape)

            def deflate(x):
                gate.hit()
                v = x.ravel()
                x -= (B @ (B.T @ v)).reshape(shape)
            self.operator, self.deflate = operator, deflate
            self.given = [A, B]
            self.shapes = {'x': [shape], 'y': [shape]}
        elif k == 'cgeq':
            from pycomplex.stencil.complex import StencilComplex
            C, D = _classes(gate, t['bits'])
            c = C.from_shape(tuple(t['shape']), t['scale'])
            ne = c.n_elements[0]
            P, H = c.topology.primal[0], c.hodge
            lap = wrapped(gate, P.transpose() * H[1] * P)
            self.operator = lambda x: lap * x

            def deflate(x):
                gate.hit()
                x -= x.mean()
            self.deflate = deflate
            self.given = []
            self.shapes = {'x': [ne], 'y': [ne]}
        else:
            r = np.random.RandomState(t['fseed'])
            n = t['n']
            Q, _ = np.linalg.qr(r.randn(n, n))
            self.A = Q @ np.diag(r.uniform(.5, 2, n) * (1 if t['definite'] else r.choice([-1, 1], n))) @ Q.T
            self.A = (self.A + self.A.T) / 2
            self.given = [self.A]
            self.shapes = {'x': [(n,)], 'y': [(n,)]}
        self.given0 = [g.tobytes() for g in self.given]

    def vec(self, which, seed):
        """caller's own vectors; callers that name the same seed share them"""
        if seed is None:
            return None
        key = (which, seed)
        v = self.vectors.get(key)
        if v is None:
            r = np.random.RandomState(seed)
            a = [r.randn(*s) for s in self.shapes[which]]
            if self.t['kind'] == 'cgeq':
                a = [x - x.mean() for x in a]
            if self.t['kind'] in ('mg', 'eq'):
                from pycomplex.stencil.block import BlockArray
                a = BlockArray(a, ndim=1)
            else:
                a = a[0]
            v = self.vectors.setdefault(key, (a, _bytes(a)))
        return v[0]

    def h(self):
        """the hierarchy: one that the callers keep, or one asked for anew"""
        if not self.t.get('held'):
            return self.eq.hierarchy(self.t['levels'])
        if 'h' not in self.lists:
            h = self.eq.hierarchy(self.t['levels'])
            self.lists.setdefault('h', (h, list(h)))
        return self.lists['h'][0]

    def knots(self, n):
        return self.lists.setdefault('knots %d' % n, ([.5 + .25 * i for i in range(n)], [.5 + .25 * i for i in range(n)]))[0]

    def touched(self):
        """caller data that is no longer what the caller made it"""
        for k, (a, b) in sorted(self.lists.items()):
            if len(a) != len(b) or any(x is not y and x != y for x, y in zip(a, b)):
                return ['list of %s' % ('levels' if k == 'h' else k)]
        out = ['%s %s' % k for k, (a, b) in sorted(self.vectors.items()) if _bytes(a) != b]
        out += ['coefficients' for g, b in zip(self.given, self.given0) if g.tobytes() != b]
        return out


def _bytes(a):
    if hasattr(a, 'block'):
        return [(b.shape, b.dtype.str, b.tobytes()) for b in a.block]
    return (a.shape, a.dtype.str, a.tobytes())


def _flat(v):
    return np.concatenate([b.ravel() for b in v.block]) if hasattr(v, 'block') else np.asarray(v).ravel()


# ----------------------------------------------------------------------------------------------------------
# steps

def _mg():
    import pycomplex.stencil.multigrid as m
    return m


def _cg(p, y, x, n):
    from pycomplex.solvers import solve_cg
    return solve_cg(p.deflate, p.operator, y) if x is None else solve_cg(p.deflate, p.operator, y, x)


def _minres(p, y, x, n):
    from pycomplex.solvers import solve_minres
    return solve_minres(p.A, y, x, tol=10. ** -n)


MG = {
    'v_cycle': lambda p, y, x, n: _mg().v_cycle(p.h(), y, x),
    'solve_v_cycle': lambda p, y, x, n: _mg().solve_v_cycle(p.h(), y, x, n),
    'solve_full_cycle': lambda p, y, x, n: _mg().solve_full_cycle(p.h(), y, n),
    'restrict': lambda p, y, x, n: p.eq.restrict(y),
    'restrict_primal': lambda p, y, x, n: p.eq.restrict_primal(y),
    'coarse error': lambda p, y, x, n: p.eq.interpolate(p.eq.coarse.solve(p.eq.restrict(y))),
    'coarse smooth': lambda p, y, x, n: p.eq.coarse.smooth(p.eq.restrict(y) * 0, p.eq.restrict(y)),
}
EQ = {
    'residual': lambda p, y, x, n: p.eq.residual(x, y),
    'normal residual': lambda p, y, x, n: p.eq.AT * p.eq.residual(x, y),
    'jacobi': lambda p, y, x, n: p.eq.jacobi(x, y, n / 4.),
    'smooth': lambda p, y, x, n: p.eq.smooth(x, y),
    'overrelax': lambda p, y, x, n: p.eq.overrelax(x, y, p.knots(n)),
    'NR_BLOCK_GS': lambda p, y, x, n: p.eq.NR_BLOCK_GS(x, y),
    'NE_BLOCK_GS': lambda p, y, x, n: p.eq.NE_BLOCK_GS(x, y),
    'solve': lambda p, y, x, n: p.eq.solve(y, x, maxiter=2 * n),
    'solve_minres_normal': lambda p, y, x, n: p.eq.solve_minres_normal(y, x, maxiter=n),
    'diagonal': lambda p, y, x, n: p.eq.inverse_normal_diagonal,
    'ne diagonal': lambda p, y, x, n: p.eq.inverse_normal_ne_diagonal,
    'sg diagonal': lambda p, y, x, n: p.eq.inverse_sg_normal_diagonal,
    'normal': lambda p, y, x, n: p.eq.normal.system.A * x,
    'normal_ne': lambda p, y, x, n: p.eq.normal_ne.system.A * y,
}
STEPS = {'mg': dict(EQ, **MG), 'eq': EQ, 'cg': {'solve_cg': _cg}, 'cgeq': {'solve_cg': _cg}, 'minres': {'solve_minres': _minres}}
# iterations that can be continued from the last completed iterate: name -> (pieces(n), one piece)
MARCH = {
    'solve_v_cycle': (lambda n: range(n), lambda p, y, x, i: _mg().solve_v_cycle(p.h(), y, x, 1)),
    'overrelax': (lambda n: range(n), lambda p, y, x, i: p.eq.overrelax(x, y, [.5 + .25 * i])),
}
NEEDX = {'residual', 'normal residual', 'jacobi', 'smooth', 'overrelax', 'NR_BLOCK_GS', 'NE_BLOCK_GS', 'normal', 'solve_minres'}


def attempt(gate, sim, t, no, f, plan, abort):
    """one attempt at one step; plan: failing operator call, abort: (event, kind)"""
    gate.arm(plan)
    sim.begin(t, no, abort)
    try:
        v = f()
    except (core.SimKilled, core.StepCap, core.Deadlock):
        sim.end(t)
        raise
    except BaseException as e:
        sim.end(t)
        r = ('injected' if core.carries_injection(e) else 'raise', type(e).__name__)
        v = None
    else:
        sim.end(t)
        r = ('value', canon.canon(v))
    th = core._thread.get_ident()
    return r, v, gate.n[th], gate.fired[th], t.k, bool(t.fired)


def opkey(op):
    return json.dumps([op['name'], op['y'], op['x'], op['n']])


def solo(t, op, mode):
    """the step alone, on an equation of its own, nothing failing: value, operator calls, events"""
    gate = Gate()
    p = Problem(t, gate)
    y, x = p.vec('y', op['y']), p.vec('x', op['x'])
    out = []

    def body(sim, th):
        out.append(attempt(gate, sim, th, 0, lambda: STEPS[t['kind']][op['name']](p, y, x, op['n']), None, None))
    sim = core.Sim([body], core.ReplaySchedule([]), mode, cap=30000000)
    sim.run()
    if sim.threads[0].error is not None:
        raise proc.HarnessError(sim.threads[0].tb)
    r, v, calls, _, events, _ = out[0]
    return {'r': r, 'v': v, 'calls': calls, 'events': events, 'touched': p.touched()}


def plans(f, ref, pieces=1):
    """failure of this attempt: operator call and/or event"""
    plan = abort = None
    if f and f[0] == 'operator' and ref['calls']:
        n = max(1, ref['calls'] // pieces)
        plan = (1 + int(f[1] * n) if f[1] < 1 else n, f[2])
    elif f and f[0] == 'abort' and ref['events']:
        n = max(1, ref['events'] // pieces)
        abort = (1 + int(f[1] * n), f[2])
    return plan, abort


def child(spec):
    t = spec['target']
    ops = [o for th in spec['threads'] for o in th]
    ref = {}
    for o in ops:
        k = opkey(o)
        if k not in ref:
            ref[k] = solo(t, o, spec['mode'])
    gate = Gate()
    p = Problem(t, gate)
    obs = []
    hits = {}
    touched = []

    def mk(ops, tid):
        def body(sim, th):
            no = 0
            for op in ops:
                rf = ref[opkey(op)]
                y, x = p.vec('y', op['y']), p.vec('x', op['x'])
                march = op.get('march')
                if march:
                    pieces, one = MARCH[op['name']]
                    todo = list(pieces(op['n']))
                else:
                    todo = [None]
                faults = list(op['faults'])
                cur = x
                done = 0
                while done < len(todo):
                    f = faults.pop(0) if faults else None
                    plan, abort = plans(f, rf, len(todo))
                    if march:
                        fn = lambda: one(p, y, cur, todo[done])
                    else:
                        fn = lambda: STEPS[t['kind']][op['name']](p, y, x, op['n'])
                    before = _bytes(cur) if cur is not None else None
                    r, v, calls, fired, k, cut = attempt(gate, sim, th, no, fn, plan, abort)
                    no += 1
                    if fired:
                        hits['operator raises ' + plan[1]] = hits.get('operator raises ' + plan[1], 0) + 1
                    if cut:
                        hits[abort[1]] = hits.get(abort[1], 0) + 1
                    if cur is not None and _bytes(cur) != before:
                        touched.append((tid, op['name'], 'iterate handed in'))
                    bad = p.touched()
                    if bad:
                        touched.append((tid, op['name'], bad[0]))
                    last = r[0] != 'value' or done == len(todo) - 1
                    obs.append((tid, op['name'], op['y'], op['x'], op['n'], bool(march), bool(fired or cut), r if last else ('piece', None)))
                    if r[0] == 'value':
                        done += 1
                        if march:
                            cur = v
                    elif r[0] == 'raise' and not (fired or cut):
                        break
        return body
    sim = core.Sim([mk(o, i) for i, o in enumerate(spec['threads'])], engine.make_schedule(spec['sched']), spec['mode'], cap=30000000)
    sim.run()
    for th in sim.threads:
        if th.error is not None:
            raise proc.HarnessError(th.tb)
    wrong = []
    gate.arm(None)
    audit(p, t, spec, wrong)
    for k, rf in ref.items():
        if rf['r'][0] == 'value':
            for what in model(p, t, json.loads(k), rf['v'], Gate()):
                wrong.append((json.loads(k)[0], what))
        if rf['touched']:
            wrong.append((json.loads(k)[0], 'changes the caller\'s ' + rf['touched'][0]))
    return {'obs': obs, 'ref': {k: (r['r'], r['calls'], r['events']) for k, r in ref.items()}, 'wrong': wrong, 'touched': touched, 'hits': hits,
            'switches': sim.switches, 'first': getattr(sim, 'first', 0), 'locs': sim.switch_locs, 'steps': sim.steps}


# ----------------------------------------------------------------------------------------------------------
# afterwards: the shared equation is what it was, and the iteration converges

def audit(p, t, spec, wrong):
    if t['kind'] not in ('mg', 'eq'):
        return
    q = Problem(t, Gate())
    es, fs = [p.eq], [q.eq]
    if t['kind'] == 'mg':
        es, fs = p.eq.hierarchy(t['levels']), q.eq.hierarchy(t['levels'])
    else:
        es, fs = [p.eq], [q.eq]
    for l, (a, b) in enumerate(zip(es, fs)):
        for n in sorted(b.fields):
            if canon.diff(canon.canon(a.fields[n]), canon.canon(b.fields[n]), 0, 0):
                wrong.append(('audit', 'level %d of the shared equation: coefficient field %s is not that of a fresh equation' % (l, n)))
        r = np.random.RandomState(7)
        c = b.complex
        from pycomplex.stencil.block import BlockArray
        x = BlockArray([r.randn(*c.n_elements[int(n)]) for n in b.system.R], ndim=1)
        y = BlockArray([r.randn(*c.n_elements[int(n)]) for n in b.system.L], ndim=1)
        for name, f in (('residual', lambda e: e.residual(x, y)), ('diagonal', lambda e: e.inverse_normal_diagonal), ('smooth', lambda e: e.smooth(x, y)),
                        ('normal residual', lambda e: e.normal.residual(x, y)), ('NR_BLOCK_GS', lambda e: e.NR_BLOCK_GS(x, y)), ('NE_BLOCK_GS', lambda e: e.NE_BLOCK_GS(x, y))):
            d = canon.diff(canon.canon(f(a)), canon.canon(f(b)), 0, 0)
            if d:
                wrong.append(('audit', 'level %d of the shared equation: %s differs from that of a fresh equation: %s' % (l, name, d)))
    if t['kind'] == 'mg' and spec.get('converge'):
        y = p.vec('y', 1)
        x = None
        nres = lambda x: np.linalg.norm(_flat(p.eq.AT * p.eq.residual(x, y)))
        r0 = nres(y * 0)
        h = p.eq.hierarchy(t['levels'])
        bound = spec['converge']
        for i in range(bound):
            x = _mg().v_cycle(h, y, x)
        r = nres(x)
        tol = 5e-5 if t.get('uniform') else 1e-3
        if not r <= tol * r0:
            wrong.append(('progress', '%d v-cycles after failures stopped reduce the residual of the normal equation only by %.1e' % (bound, r / r0)))
        f = _mg().solve_full_cycle(h, y, bound)
        if not nres(f) <= tol * r0:
            wrong.append(('progress', 'full cycle of %d iterations reduces the residual of the normal equation only by %.1e' % (bound, nres(f) / r0)))
    return


def matrix(t, c=None, f=None):
    """the matrix of the equation, from the unscaled operators and the coefficient fields"""
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.linear_system import System
    if c is None:
        c = StencilComplex.from_shape(tuple(t['shape']), t['scale'])
        f = fields(c, t)
    B = System.canonical(c).A.block
    D = lambda o: np.asarray(o.to_dense(), float)
    d = lambda n, s=1: np.diag(s * f[n].ravel())
    if t['how'] == 'formulate':
        rows = [[D(B[0, 0]) @ d('constraint', -1), D(B[0, 1]) @ d('conductance')], [d('foo') @ D(B[1, 0]), D(B[1, 1]) @ d('resistance')]]
    elif t['how'] == 'formulate_flux_only':
        rows = [[D(B[0, 1]) @ d('conductance')], [D(B[2, 1]) @ d('resistance')]]
    else:
        rows = [[D(B[0, 0]) @ d('constraint', -1), D(B[0, 1]) @ d('conductance')], [D(B[1, 0]), D(B[1, 1]) @ d('resistance')], [D(B[2, 0]), D(B[2, 1]) @ d('resistance')]]
    return np.block(rows)


_mats = {}


def model(p, t, key, v, gate):
    """what the step must satisfy whatever the iteration: laws of the linear system, in dense arithmetic"""
    name, ys, xs, n = key
    out = []
    close = lambda a, b, tol: np.allclose(a, b, rtol=0, atol=tol * (1 + np.abs(b).max()))
    if t['kind'] == 'cg':
        y, B = _flat(p.vec('y', ys)), p.B
        P = np.eye(len(y)) - B @ B.T
        s = np.linalg.lstsq(P @ p.A @ P + B @ B.T, P @ y, rcond=None)[0]
        if not t.get('spread') and not close(_flat(v), s, 1e-3):
            out.append('misses the solution of the constrained system by %.1e' % np.abs(_flat(v) - s).max())
        x0 = P @ _flat(p.vec('x', xs)) if xs is not None else y * 0
        r = np.linalg.norm(P @ (y - p.A @ _flat(v))) / max(np.linalg.norm(y), np.linalg.norm(y - p.A @ x0))
        if not r <= 1e-3:
            out.append('leaves %.1e of the initial residual' % r)
        return out
    if t['kind'] == 'cgeq':
        q = Problem(t, Gate())
        q_y = p.vec('y', ys)
        r = q_y - q.operator(v)
        if not np.linalg.norm(r) <= 1e-3 * np.linalg.norm(q_y) or abs(v.mean()) > 1e-6:
            out.append('residual %.1e of the right-hand side after solving' % (np.linalg.norm(r) / np.linalg.norm(q_y)))
        return out
    if t['kind'] == 'minres':
        y = p.vec('y', ys)
        r = np.linalg.norm(p.A @ v - y) / np.linalg.norm(y)
        if not r <= 1e-3:
            out.append('residual %.1e of the right-hand side after solving' % r)
        return out
    k = json.dumps(t)
    if k not in _mats:
        _mats[k] = matrix(t)
    A = _mats[k]
    y = _flat(p.vec('y', ys))
    x = _flat(p.vec('x', xs)) if xs is not None else None
    g = _flat(v) if not isinstance(v, (int, float)) else None
    N = A.T @ A
    if name == 'residual' and not close(g, A @ x - y, EPS):
        out.append('is not A x - y')
    if name == 'normal residual' and not close(g, A.T @ (A @ x - y), EPS):
        out.append('is not A\'(A x - y)')
    if name == 'normal' and not close(g, N @ x, EPS):
        out.append('is not A\'A x')
    if name == 'normal_ne' and not close(g, A @ (A.T @ y), EPS):
        out.append('is not A A\' y')
    if name == 'diagonal' and not close(1 / g, np.diag(N), 1e-3):
        out.append('is not the inverse of the diagonal of A\'A')
    if name == 'ne diagonal' and not close(1 / g, np.diag(A @ A.T), 1e-3):
        out.append('is not the inverse of the diagonal of A A\'')
    if name == 'jacobi':
        D = np.diag(N)
        if (D > 1e-6).all() and not close(g, x - (n / 4.) / 2 * (A.T @ (A @ x - y)) / D, EPS * 10):
            out.append('is not the damped jacobi iteration of the normal equation')
    return out


def fixed_point(t):
    """the exact solution is where every iteration stays, and iterating gets there"""
    p = Problem(t, Gate())
    A = matrix(t)
    out = []
    y = p.vec('y', 1)
    x0 = p.vec('x', 2)
    s = np.linalg.lstsq(A, _flat(y), rcond=None)[0]
    xs = x0.from_dense(s)
    scale = 1 + np.abs(s).max()
    for name in ('jacobi', 'smooth', 'NR_BLOCK_GS') + (('NE_BLOCK_GS',) if t['how'] == 'formulate' else ()):
        d = np.abs(_flat(getattr(p.eq, name)(xs, y)) - s).max() / scale
        if not d <= 1e-3:
            out.append((name, 'moves the exact solution by %.1e' % d))
    nres = lambda x: np.linalg.norm(_flat(p.eq.AT * p.eq.residual(x, y)))
    r0 = nres(x0 * 0)
    for x in (x0, x0 * 0):
        r = nres(p.eq.solve_minres_normal(y, x, rtol=1e-8, maxiter=4000)) / r0
        if not r <= 1e-3:
            out.append(('solve_minres_normal', 'leaves %.1e of the normal residual' % r))
    if len(t['shape']) < 3:
        for name, n in (('smooth', 30), ('NR_BLOCK_GS', 40)) + ((('NE_BLOCK_GS', 60),) if t['how'] == 'formulate' else ()):
            x = x0
            for i in range(n):
                x = getattr(p.eq, name)(x, y)
            r = nres(x) / nres(x0)
            if not r <= 5e-2:
                out.append((name, '%d sweeps leave %.1e of the normal residual' % (n, r)))
    if t['kind'] == 'mg':
        out += coarse_laws(p, t)
        d = np.abs(_flat(_mg().v_cycle(p.eq.hierarchy(t['levels']), y, xs)) - s).max() / scale
        if not d <= 1e-3:
            out.append(('v_cycle', 'moves the exact solution by %.1e' % d))
    q = p.touched()
    if q:
        out.append(('fixed point', 'changes the caller\'s ' + q[0]))
    return out


def coarse_laws(p, t):
    """every level is the same equation on the coarser grid, and correction by it removes what the coarser grid can represent"""
    out = []
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.block import BlockArray
    c = StencilComplex.from_shape(tuple(t['shape']), t['scale'])
    f = fields(c, t)
    for l, e in enumerate(p.eq.hierarchy(t['levels'])[::-1]):
        r = np.random.RandomState(l)
        if tuple(e.complex.shape) != tuple(n >> l for n in t['shape']) or abs(e.complex.scale - t['scale'] * 2 ** l) > 1e-9:
            out.append(('hierarchy', 'level %d is on a grid of shape %s and spacing %s' % (l, e.complex.shape, e.complex.scale)))
            break
        x = BlockArray([r.randn(*c.n_elements[int(n)]) for n in e.system.R], ndim=1)
        y = BlockArray([r.randn(*c.n_elements[int(n)]) for n in e.system.L], ndim=1)
        A = matrix(t, c, f)
        want = A @ _flat(x) - _flat(y)
        if not np.allclose(_flat(e.residual(x, y)), want, rtol=0, atol=EPS * (1 + np.abs(want).max())):
            out.append(('hierarchy', 'level %d is not the equation with averaged coefficients' % l))
        f = {n: c.coarsen[0 if n == 'constraint' else 1] * f[n] for n in f}
        c = c.coarse
    e = p.eq
    x = p.vec('x', 2) * 0
    x[0] = x[0] + 1
    k = e.coarse.solve(e.restrict(e.residual(x, x * 0)), rtol=1e-9, maxiter=2000)
    d = np.linalg.norm(_flat(x - e.interpolate(k))) / np.linalg.norm(_flat(x))
    if not d <= 1e-2:
        out.append(('coarse correction', 'leaves %.2f of a constant error' % d))
    if t['shape'][0] >= 8:
        n = t['shape'][0]
        x[0] = x[0] * 0 + np.sin(2 * np.pi * np.arange(n) / n).reshape((1, n) + (1,) * (len(t['shape']) - 1))
        k = e.coarse.solve(e.restrict(e.residual(x, x * 0)), rtol=1e-9, maxiter=2000)
        d = np.linalg.norm(_flat(x - e.interpolate(k))) / np.linalg.norm(_flat(x))
        if not d <= .68:
            out.append(('coarse correction', 'leaves %.2f of a smooth error' % d))
    return out


def laws_child(spec):
    t = spec['target']
    return {'wrong': fixed_point(t)}


# ----------------------------------------------------------------------------------------------------------

def judge(spec, res):
    out = []
    tn = json.dumps(spec['target'])
    for name, what in res['wrong']:
        out.append({'kind': 'solver-law', 'step': name, 'detail': '%s of %s: %s' % (name, tn, what)})
    for tid, name, what in res.get('touched', ()):
        out.append({'kind': 'solver-input', 'step': name, 'detail': '%s of %s changed the caller\'s %s' % (name, tn, what)})
    for tid, name, y, x, n, march, fired, r in res.get('obs', ()):
        ref = res['ref'][opkey({'name': name, 'y': y, 'x': x, 'n': n})][0]
        where = '%s(y%s, x%s, %s)%s of %s' % (name, y, x, n, ' in pieces' if march else '', tn)
        if r[0] in ('injected', 'piece'):
            continue
        if r[0] == 'value':
            if ref[0] != 'value':
                out.append({'kind': 'solver-outcome', 'step': name, 'detail': '%s returned, alone it raises %s' % (where, ref[1])})
                continue
            d = canon.diff(r[1], ref[1], 0, 0)
            if d:
                out.append({'kind': 'solver-hidden' if fired else 'solver-value', 'step': name,
                            'detail': '%s %s: %s' % (where, 'hides a failure and differs from the uninterrupted computation' if fired else 'differs from the uninterrupted computation alone', d)})
        elif not fired and ref != r:
            out.append({'kind': 'solver-outcome', 'step': name, 'detail': '%s raised %s, alone %s' % (where, r[1], canon.short(ref))})
    return out


class C03(MeshCheck):
    prop = 'C03'
    rule = ('one run = 1-3 callers solving over one shared equation and hierarchy (diffusion in three formulations, 1-3 dimensions, 1-3 levels; or solve_cg, solve_minres), '
            'sharing right-hand sides and guesses, preempted at line/instruction events; steps fail because an operator of the equation, of the level transfers or of the '
            'caller raises one of 17 exception types at a seeded call, or are cut short by one of ten exception kinds, and are repeated or continued from the last completed iterate; '
            'or a run over the generic equation vocabulary (also: pairs of calls at the same time in up to 40 ways, one call cut short at up to 40 places); non-trivial = a preemption or fault inside a call, distinct event log')
    assumptions = ['preemption and aborts happen between Python bytecodes of library code', 'reference = the same step alone, on an equation of its own, nothing failing',
                   'convergence bounds are for well-conditioned diffusion problems with unit grid spacing']

    def runs(self, tier):
        return 1280 if tier == 'quick' else 40000

    def build(self, rng, i, seed, tier):
        u = (i // 8) % 7
        if u == 2:
            return rng.choice([duel, barrage])(rng, i, seed, self.prop, ('eq',), j=rng.choice([i // 56, None]))
        if u == 0:
            s = mkspec(rng, i, seed, self.prop, rng.choice([1, 2, 3]), rng.choice([2, 3]), 3, rng.choice([0, .5]), rng.choice(['line', 'line', 'instr']), private=.03, families=('eq',))
            s['cap'] = 30000000
            return s
        if u == 1:
            t = self.equation(rng, rng.choice(['mg', 'eq']))
            return {'prop': 'C03', 'run': i, 'laws': True, 'target': t, 'threads': [], 'sched': {}}
        return self.solver(rng, i, tier)

    def equation(self, rng, kind):
        bits = [int(rng.random() < .6) for _ in range(5)]
        t = {'kind': kind, 'scale': 1, 'fseed': rng.randrange(1000), 'bits': bits}
        if kind == 'mg':
            t['how'] = 'formulate'
            t['levels'] = rng.choice([1, 1, 2])
            t['shape'] = rng.choice([[8], [16], [4, 8], [8, 4], [8, 8], [8, 8], [4, 4, 4], [16, 8]] if t['levels'] == 1 else [[8], [16], [8, 8], [16, 8], [8, 8]])
        else:
            t['how'] = rng.choice(['formulate', 'formulate_flux_only', 'formulate_all'])
            t['shape'] = rng.choice([[4, 4], [2, 4], [8, 4], [2, 2, 4]] + ([[8], [4]] if t['how'] == 'formulate' else []))
            t['scale'] = rng.choice([1, 1, .5, 2])
        if rng.random() < .2:
            t['uniform'] = 1
        elif t['how'] == 'formulate' and rng.random() < .3:
            t['foo'] = 1
        return t

    def solver(self, rng, i, tier):
        kind = rng.choice(['mg', 'mg', 'mg', 'eq', 'eq', 'cg', 'cgeq', 'minres'])
        if kind in ('mg', 'eq'):
            t = self.equation(rng, kind)
        elif kind == 'cg':
            shape = rng.choice([[12], [3, 4], [2, 3, 4], [30], [6]])
            n = int(np.prod(shape))
            t = {'kind': kind, 'n': n, 'm': rng.choice([0, 1, 2, 3]), 'shape': shape, 'fseed': rng.randrange(1000)}
            if rng.random() < .4:           # needs many iterations
                t.update(n=80, shape=[8, 10], spread=rng.choice([2, 3]))
        elif kind == 'cgeq':
            t = {'kind': kind, 'shape': rng.choice([[8], [4, 4], [8, 4], [2, 4, 4]]), 'scale': rng.choice([1, .5]), 'bits': [0], 'fseed': 0}
        else:
            t = {'kind': kind, 'n': rng.choice([2, 3, 5, 8, 20]), 'definite': rng.random() < .5, 'fseed': rng.randrange(1000)}
        if kind == 'mg' and rng.random() < .6:
            t['held'] = 1
        names = sorted(STEPS[kind])
        heavy = ['v_cycle', 'solve_v_cycle', 'solve_full_cycle', 'solve', 'smooth', 'overrelax']
        mode = rng.choice(['line', 'line', 'instr'])
        threads = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                name = rng.choice(heavy if kind == 'mg' and rng.random() < .5 else names)
                op = {'name': name, 'y': rng.choice([1, 1, 11]), 'x': rng.choice([2, 2, 12]), 'n': rng.choice([1, 2, 3, 4]), 'faults': []}
                if kind == 'minres':
                    op['n'] = rng.choice([5, 8])
                if name not in NEEDX and rng.random() < .4:
                    op['x'] = None
                if name in MARCH and rng.random() < .6:
                    op['march'] = True
                    op['n'] = max(2, op['n'])
                if name in ('solve_v_cycle', 'solve_full_cycle'):
                    op['n'] = min(op['n'], 2 if mode == 'instr' else 3)
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    if rng.random() < .5:
                        op['faults'].append(['operator', rng.choice([rng.random(), 1, rng.random() ** 3]), rng.choice(sorted(ERR))])
                    else:
                        op['faults'].append(['abort', rng.choice([rng.random(), rng.random() ** 3, 1 - rng.random() ** 3 * .99]), rng.choice(core.FAULT_KINDS)])
                    if op.get('march') and rng.random() < .5:
                        op['faults'].insert(0, None)
                ops.append(op)
            threads.append(ops)
        pol = rng.choice(['walk', 'walk', 'pct', 'hold'])
        s = {'prop': 'C03', 'run': i, 'solver': True, 'mode': mode, 'target': t, 'threads': threads,
             'sched': {'policy': pol, 'p': (rng.choice([.2, .05, .01, .002]) if pol == 'walk' else rng.choice([1, 2, 3, 6])), 'seed': rng.randrange(1 << 30), 'est': 4000}}
        if kind == 'mg' and len(t['shape']) < 3 and rng.random() < .4:
            s['converge'] = 8
        return s

    def execute(self, spec):
        spec = self.materialise(spec)
        if spec.get('laws'):
            r = proc.forkrun(laws_child, spec, timeout=240)
            if r[0] != 'ok':
                raise proc.HarnessError('run %s: %s' % (spec.get('run'), r))
            return {'violations': judge(spec, r[1]), 'digest': hashlib.sha1(json.dumps(spec['target']).encode()).hexdigest(), 'pin': ([], 0), 'spec': spec, 'nontrivial': False,
                    'interleavings': [], 'faults': {}, 'stats': {'law_runs': 1}, 'sample': None}
        if not spec.get('solver'):
            return super().execute(spec)
        r = proc.forkrun(child, spec, timeout=240)
        if r[0] != 'ok':
            raise proc.HarnessError('run %s: %s' % (spec.get('run'), r))
        res = r[1]
        h = hashlib.sha1(repr((spec['target'], [o[:7] + (o[7][0], canon.digest(o[7][1]) if o[7][0] == 'value' else o[7][1]) for o in res['obs']], res['switches'])).encode())
        inter = hashlib.sha1(json.dumps(res['locs']).encode()).hexdigest()[:16] if res['locs'] else None
        return {'violations': judge(spec, res), 'digest': h.hexdigest(), 'pin': (res['switches'], res['first']), 'spec': spec,
                'nontrivial': bool(res['hits'] or res['locs']), 'interleavings': [inter] if inter else [], 'faults': res['hits'],
                'stats': {'attempts': len(res['obs']), 'solver_runs': 1, 'simulated_events': res['steps'], 'context_switches': len(res['locs']),
                          'resumed_iterations': sum(1 for o in res['obs'] if o[5]), 'reported_failures': sum(1 for o in res['obs'] if o[7][0] == 'injected'),
                          'convergence_checks': int(bool(spec.get('converge')))},
                'sample': {'run': spec['run'], 'target': spec['target'], 'threads': spec['threads']}}

    def nontrivial(self, spec, res):
        return bool(res['locs'] or res['faults'])

    def shrink(self, spec):
        spec = self.materialise(spec)
        if spec.get('laws'):
            return
        if not spec.get('solver'):
            yield from super().shrink(spec)
            return
        if spec['sched'].get('explicit'):
            c = copy.deepcopy(spec)
            c['sched']['explicit'] = []
            yield c
        for t in range(len(spec['threads'])):
            if spec['threads'][t]:
                c = copy.deepcopy(spec)
                c['threads'][t] = []
                yield c
            for j in range(len(spec['threads'][t])):
                c = copy.deepcopy(spec)
                del c['threads'][t][j]
                yield c
            for j in range(len(spec['threads'][t])):
                for f in range(len(spec['threads'][t][j]['faults'])):
                    c = copy.deepcopy(spec)
                    del c['threads'][t][j]['faults'][f]
                    yield c
        if spec.get('converge'):
            c = copy.deepcopy(spec)
            del c['converge']
            yield c
        n = len(spec['sched'].get('explicit') or [])
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                c = copy.deepcopy(spec)
                del c['sched']['explicit'][a:a + size]
                yield c
            if n > 200 and size < n // 64:
                break
            size //= 2
