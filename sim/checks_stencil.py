"""C10: stencil complexes, stencil operators, block systems and sparse arrays, shared, cut short and retried;
and block systems over operands that the caller supplies and that fail."""
import copy
import hashlib
import itertools
import json
import random

import numpy as np
import scipy.sparse

import canon
import core
import engine
import proc
from checks_mesh import MeshCheck, mkspec, duel, barrage

# what an operand may raise (anything: it is the caller's code)
ERRORS = [ValueError, TypeError, AttributeError, KeyError, IndexError, NotImplementedError, ArithmeticError, ZeroDivisionError, FloatingPointError,
          MemoryError, RuntimeError, AssertionError, OSError, np.linalg.LinAlgError, KeyboardInterrupt, LookupError, BufferError]


def _mk(E):
    class OperandError(core.InjectedFault, E):
        pass
    OperandError.__name__ = 'Operand' + E.__name__
    return OperandError


ERR = {E.__name__: _mk(E) for E in ERRORS}


class Gate(object):
    """counts the calls that reach operands, per caller, and fails one of them"""

    def __init__(self):
        self.n = {}
        self.plan = {}
        self.fired = {}

    def arm(self, plan):
        t = core._thread.get_ident()
        self.n[t], self.plan[t], self.fired[t] = 0, plan, False

    def hit(self):
        t = core._thread.get_ident()
        self.n[t] = self.n.get(t, 0) + 1
        p = self.plan.get(t)
        if p and self.n[t] == p[0]:
            self.fired[t] = True
            raise ERR[p[1]]('operand call %d' % p[0])


class M(object):
    """matrix-like operand of a block matrix"""

    def __init__(self, gate, m):
        self.gate, self.m = gate, m

    def _(self, f):
        self.gate.hit()
        return M(self.gate, f())

    @property
    def shape(self):
        return self.m.shape

    def __mul__(self, o):
        self.gate.hit()
        if isinstance(o, M):
            return M(self.gate, self.m * o.m)
        return self.m * o

    def __add__(self, o):
        return self._(lambda: self.m if isinstance(o, int) and o == 0 else self.m + o.m)
    __radd__ = __add__

    def __sub__(self, o):
        return self._(lambda: self.m - o.m)

    def transpose(self):
        return self._(lambda: self.m.transpose())

    def __abs__(self):
        return self._(lambda: abs(self.m))

    def sum(self, axis=None):
        self.gate.hit()
        return np.asarray(self.m.sum(axis=axis)).ravel()

    def diagonal(self):
        self.gate.hit()
        return self.m.diagonal()


class V(object):
    """array-like operand of a block vector; knows no more than it must"""
    __array_ufunc__ = None

    def __init__(self, gate, a):
        self.gate, self.a = gate, a

    def _b(name):
        def f(self, o):
            self.gate.hit()
            return V(self.gate, getattr(self.a, name)(o.a if isinstance(o, V) else o))
        return f
    for _n in ('__add__', '__sub__', '__mul__', '__truediv__', '__radd__', '__rsub__', '__rmul__', '__rtruediv__'):
        locals()[_n] = _b(_n)
    del _b, _n

    @property
    def shape(self):
        return self.a.shape

    @property
    def size(self):
        return self.a.size

    def sum(self):
        self.gate.hit()
        return self.a.sum()

    def transpose(self):
        self.gate.hit()
        return V(self.gate, self.a.transpose())

    @property
    def T(self):
        return self.transpose()

    def __abs__(self):
        self.gate.hit()
        return V(self.gate, abs(self.a))

    def simplify(self):
        self.gate.hit()
        return self


def plain(x):
    """value without the wrappers"""
    if isinstance(x, M):
        return ('M', np.asarray(x.m.todense()))
    if isinstance(x, V):
        return ('V', x.a)
    if hasattr(x, 'block'):
        b = x.block
        return (type(x).__name__, b.shape, [plain(e) for e in b.ravel()])
    if isinstance(x, (list, tuple)):
        return [plain(e) for e in x]
    return x


def target(t, gate):
    """(object, vector on its right, vector on its left)"""
    kind, seed = t[0], t[-1]
    r = np.random.RandomState(seed)
    if kind == 'matrix':
        from pycomplex.block import SparseBlockMatrix, DenseBlockArray
        rows, cols = t[1], t[2]
        ms = [[scipy.sparse.random(m, n, .6, random_state=r).tocsr() for n in cols] for m in rows]
        wrap = t[3]
        block = np.empty((len(rows), len(cols)), object)
        for i, j in np.ndindex(*block.shape):
            block[i, j] = M(gate, ms[i][j]) if wrap[(i * len(cols) + j) % len(wrap)] else M(Gate(), ms[i][j])

        def vec(ns):
            b = np.empty(len(ns), object)
            for i, n in enumerate(ns):
                b[i] = r.randn(n)
            return DenseBlockArray(b)
        return SparseBlockMatrix(block), vec(cols), vec(rows)
    if kind == 'varray':
        from pycomplex.block import DenseBlockArray
        from pycomplex.stencil.block import BlockArray
        C = [DenseBlockArray, BlockArray][t[1]]

        def vec():
            b = np.empty(len(t[2]), object)
            for i, n in enumerate(t[2]):
                b[i] = V(gate, r.uniform(1, 2, n))
            return C(b)
        return vec(), vec(), vec()
    from pycomplex.stencil.operator import StencilOperator
    from pycomplex.stencil.block import BlockOperator, BlockArray
    if kind == 'operator':
        L, R = tuple(t[1]), tuple(t[2])
        return user_operator(gate, L, R, r), r.randn(*R), r.randn(*L)
    if kind == 'blockop':
        L, R = [tuple(x) for x in t[1]], [tuple(x) for x in t[2]]
        from pycomplex.stencil.operator import ZeroOperator
        B = BlockOperator([[user_operator(gate, l, q, r) if t[3][(i + 3 * j) % len(t[3])] else ZeroOperator((l, q)) for j, q in enumerate(R)] for i, l in enumerate(L)], ndim=2)
        return B, BlockArray([r.randn(*s) for s in R], ndim=1), BlockArray([r.randn(*s) for s in L], ndim=1)
    # an operator, or system, of the library over metric operators the caller supplied
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.linear_system import System
    c = StencilComplex.from_shape(tuple(t[1]))
    S = System.canonical(c)
    n = len(S.A.block)
    for i in range(n):
        for j in range(n):
            op = S.A.block[i, j]
            if type(op).__name__ not in ('ZeroOperator',) and t[2][(i + j) % len(t[2])]:
                S.A.block[i, j] = wrapped(gate, op)
    return S.A, BlockArray([r.randn(*c.n_elements[k]) for k in S.R], ndim=1), BlockArray([r.randn(*c.n_elements[k]) for k in S.L], ndim=1)


def user_operator(gate, L, R, r):
    from pycomplex.stencil.operator import StencilOperator
    A = r.randn(int(np.prod(L)), int(np.prod(R)))

    def right(x):
        gate.hit()
        return A.dot(x.ravel()).reshape(L)

    def left(y):
        gate.hit()
        return A.T.dot(y.ravel()).reshape(R)
    return StencilOperator(left=left, right=right, shape=(L, R))


def wrapped(gate, op):
    from pycomplex.stencil.operator import StencilOperator
    right, left = op, op.transpose()

    def r(x):
        gate.hit()
        return right(x)

    def l(x):
        gate.hit()
        return left(x)
    return StencilOperator(left=l, right=r, shape=op.shape)


EXPR = {
    'matrix': {
        'apply': lambda B, x, y: B * x, 'T.apply': lambda B, x, y: B.transpose() * y, 'normal': lambda B, x, y: B.transpose() * B, 'sum': lambda B, x, y: B + B,
        'outer.apply': lambda B, x, y: (B * B.transpose()) * y, 'l1 rows': lambda B, x, y: B.norm_l1(axis=1), 'l1 cols': lambda B, x, y: B.norm_l1(axis=0),
        'diagonal': lambda B, x, y: B.diagonal(), 'double transpose': lambda B, x, y: B.transpose().transpose(), 'slice': lambda B, x, y: B[1:].transpose(),
        'copy': lambda B, x, y: B.copy() * x, 'chain': lambda B, x, y: (B.transpose() * (B * x)), 'map': lambda B, x, y: B.apply(abs)},
    'varray': {
        'add': lambda B, x, y: B + x, 'mul': lambda B, x, y: B * y, 'scale': lambda B, x, y: B * 2.5, 'T': lambda B, x, y: B.transpose(), 'copy': lambda B, x, y: B.copy() + y,
        'chain': lambda B, x, y: (B + x * 2.) * y, 'div': lambda B, x, y: B / x if hasattr(B, '__truediv__') else B - x,
        'inv': lambda B, x, y: B.invert() if hasattr(B, 'invert') else B / 2., 'sum': lambda B, x, y: B.sum() if hasattr(B, 'sum') else B.apply(abs),
        'abs': lambda B, x, y: B.apply(abs), 'simplify': lambda B, x, y: B.simplify() if hasattr(B, 'simplify') else B.transpose().transpose()},
    'operator': {
        'apply': lambda B, x, y: B * x, 'call': lambda B, x, y: B(x), 'T.apply': lambda B, x, y: B.T * y, 'normal': lambda B, x, y: (B.T * B) * x, 'outer': lambda B, x, y: (B * B.T) * y,
        'sum': lambda B, x, y: (B + B) * x, 'sum.T': lambda B, x, y: (B + B).T * y, 'dense': lambda B, x, y: B.to_dense(), 'T.dense': lambda B, x, y: B.transpose().to_dense(),
        'normal.T': lambda B, x, y: (B.T * B).T * x, 'long': lambda B, x, y: (B.T * B + B.T * B).simplify() * x, 'chain': lambda B, x, y: B.T * (B * x)},
    'blockop': {
        'apply': lambda B, x, y: B * x, 'T.apply': lambda B, x, y: B.transpose() * y, 'normal': lambda B, x, y: (B.transpose() * B) * x, 'outer': lambda B, x, y: (B * B.transpose()) * y,
        'sum': lambda B, x, y: (B + B) * x, 'dense': lambda B, x, y: B.to_dense(), 'simplify': lambda B, x, y: B.simplify() * x, 'copy': lambda B, x, y: B.copy() * x,
        'normal diagonal': lambda B, x, y: (B.transpose() * B).diagonal(), 'lin': lambda B, x, y: B.aslinearoperator().matvec(x.to_dense()),
        'rlin': lambda B, x, y: B.aslinearoperator().rmatvec(y.to_dense()), 'chain': lambda B, x, y: B.transpose() * (B * x) - x, 'diagonal': lambda B, x, y: B.diagonal()},
}
EXPR['system'] = EXPR['blockop']


def dense(kind, B):
    """matrix of the whole system, from nothing but its operands"""
    if kind == 'matrix':
        return np.vstack([np.hstack([np.asarray(m.m.todense()) for m in row]) for row in B.block])

    def op(o):
        L, R = o.shape
        return np.array([np.asarray(o(e.reshape(R))).ravel() for e in np.eye(int(np.prod(R)))]).T.reshape(int(np.prod(L)), int(np.prod(R)))
    if kind == 'operator':
        return op(B)
    return np.vstack([np.hstack([op(o) for o in row]) for row in B.block])


def flatten(v):
    if hasattr(v, 'block'):
        return np.concatenate([flatten(b) for b in v.block.ravel()])
    return np.asarray(v).ravel()


MODEL = {'apply': lambda D, x, y: D @ x, 'call': lambda D, x, y: D @ x, 'copy': lambda D, x, y: D @ x, 'simplify': lambda D, x, y: D @ x, 'lin': lambda D, x, y: D @ x,
         'T.apply': lambda D, x, y: D.T @ y, 'rlin': lambda D, x, y: D.T @ y, 'normal': lambda D, x, y: D.T @ (D @ x), 'normal.T': lambda D, x, y: D.T @ (D @ x),
         'outer': lambda D, x, y: D @ (D.T @ y), 'outer.apply': lambda D, x, y: D @ (D.T @ y), 'sum': lambda D, x, y: 2 * (D @ x), 'sum.T': lambda D, x, y: 2 * (D.T @ y),
         'long': lambda D, x, y: 2 * (D.T @ (D @ x)), 'dense': lambda D, x, y: D.ravel(), 'T.dense': lambda D, x, y: D.T.ravel(), 'l1 rows': lambda D, x, y: abs(D).sum(axis=1),
         'l1 cols': lambda D, x, y: abs(D).sum(axis=0), 'chain': lambda D, x, y: D.T @ (D @ x)}


def model(kind, name, B, x, y):
    """what a healthy system answers, or None"""
    if name not in MODEL or (kind, name) in (('matrix', 'normal'), ('matrix', 'sum')):
        return None
    u, v = flatten(x), flatten(y)
    r = MODEL[name](dense(kind, B), u, v)
    return r - u if name == 'chain' and kind in ('blockop', 'system') else r


def call(gate, f, plan):
    gate.arm(plan)
    try:
        r = ('value', canon.canon(plain(f())))
    except (core.SimKilled, core.StepCap, core.Deadlock):
        raise
    except BaseException as e:
        r = ('injected' if core.carries_injection(e) else 'raise', type(e).__name__)
    t = core._thread.get_ident()
    return r, gate.n[t], gate.fired[t]


def operand_child(spec):
    kind = spec['target'][0]
    gate = Gate()
    B, x, y = target(spec['target'], gate)
    # references: operands that do not fail, an object of its own for each
    ref, wrong = {}, []
    for name in sorted({o[0] for th in spec['threads'] for o in th}):
        g = Gate()
        b, u, v = target(spec['target'], g)
        ref[name] = call(g, lambda: EXPR[kind][name](b, u, v), None)
        want = model(kind, name, b, u, v) if kind != 'varray' else None
        if want is not None:
            if ref[name][0][0] != 'value':
                wrong.append((name, 'raises %s' % ref[name][0][1]))
            else:
                got = flatten(EXPR[kind][name](b, u, v))
                if got.shape != want.shape or not np.allclose(got, want, rtol=0, atol=(1e-5 if kind == "system" else 1e-9) * (1 + abs(want).max())):
                    wrong.append((name, 'differs from the same computation on the dense matrix of its operands'))
    obs = []

    def mk(ops, tid):
        def body(sim, t):
            rng = random.Random(spec['seed'] * 7 + tid)
            for i, (name, at, err) in enumerate(ops):
                n = ref[name][1]
                plan = None
                if err and n:
                    plan = (1 + int(at * n) if at < 1 else n, err)
                for p in ([plan, None] if plan else [None]):
                    sim.begin(t, 2 * i + (p is None), None)
                    r, m, fired = call(gate, lambda: EXPR[kind][name](B, x, y), p)
                    sim.end(t)
                    obs.append((tid, name, p, r, fired))
        return body
    sim = core.Sim([mk(ops, i) for i, ops in enumerate(spec['threads'])], engine.make_schedule(spec['sched']), spec['mode'], cap=30000000)
    sim.run()
    for t in sim.threads:
        if t.error is not None:
            raise proc.HarnessError(t.tb)
    return {'obs': obs, 'ref': ref, 'wrong': wrong, 'switches': sim.switches, 'first': getattr(sim, 'first', 0), 'locs': sim.switch_locs, 'steps': sim.steps}


def judge_operands(spec, res):
    out = [{'kind': 'operand-model', 'step': name, 'detail': '%s of %s, alone and with healthy operands, %s' % (name, json.dumps(spec['target']), what)} for name, what in res['wrong']]
    for tid, name, plan, r, fired in res['obs']:
        ref = res['ref'][name][0]
        where = '%s of %s' % (name, json.dumps(spec['target']))
        if r[0] == 'injected':
            continue
        if fired and r[0] == 'value' and canon.diff(r[1], ref[1] if ref[0] == 'value' else None, 0, 0):
            out.append({'kind': 'operand-hidden', 'step': name, 'detail': '%s: its operand raised %s at call %d, yet a different value was returned' % (where, plan[1], plan[0])})
        elif fired and r[0] == 'raise' and ref[0] == 'value':
            continue            # reported, as another error
        elif r[0] != ref[0]:
            out.append({'kind': 'operand-outcome', 'step': name, 'detail': '%s: %s, with healthy operands and alone %s' % (where, canon.short(r), canon.short(ref))})
        elif r[0] == 'value':
            d = canon.diff(r[1], ref[1], 0, 0)
            if d:
                out.append({'kind': 'operand-value', 'step': name, 'detail': '%s differs from evaluation alone after operand failures: %s' % (where, d)})
        elif r[1] != ref[1]:
            out.append({'kind': 'operand-outcome', 'step': name, 'detail': '%s raised %s, alone %s' % (where, r[1], ref[1])})
    return out


class C10(MeshCheck):
    prop = 'C10'
    rule = ('one run = 1-4 callers over 1-3 shared stencil complexes, operators, block systems or sparse arrays (15 recipes and what is derived from them), either preempted at '
            'line/instruction events, or cut short there by one of ten exception kinds with retries and an audit, or pairs of calls made at the same time in up to 40 ways, or one call cut short at up to 40 places and repeated, or over block systems whose '
            'caller-supplied operands fail at a seeded call with one of 17 exception types; non-trivial = a preemption or fault inside a call, distinct event log')
    assumptions = ['preemption and aborts happen between Python bytecodes of library code', 'reference = the same call evaluated alone on freshly built operands']

    def runs(self, tier):
        return 2000 if tier == 'quick' else 80000

    def build(self, rng, i, seed, tier):
        u = (i // 8) % 6
        if u == 0:
            return mkspec(rng, i, seed, self.prop, rng.choice([2, 2, 3, 4]), rng.choice([2, 3, 5]), 4, 0, rng.choice(['line', 'instr']), families=('st',))
        if u == 1:
            return duel(rng, i, seed, self.prop, ('st',), j=rng.choice([i // 48, None]))
        if u == 2:
            return barrage(rng, i, seed, self.prop, ('st',), j=rng.choice([i // 48, None]))
        if u == 3:
            return mkspec(rng, i, seed, self.prop, rng.choice([1, 1, 2, 3]), rng.choice([2, 4, 6]), 8, .5, rng.choice(['line', 'instr']), private=.03, families=('st',))
        return self.operands(rng, i)

    def operands(self, rng, i):
        k = rng.choice(['matrix', 'varray', 'operator', 'blockop', 'blockop', 'system'])
        s = rng.randrange(10 ** 6)
        ns = lambda: [rng.choice([1, 2, 3, 4, 7]) for _ in range(rng.choice([1, 2, 2, 3]))]
        sh = lambda: [rng.choice([1, 1, 2, 3])] + [rng.choice([2, 4]) for _ in range(rng.choice([1, 2]))]
        shs = lambda: [sh() for _ in range(rng.choice([1, 2, 2, 3]))]
        bits = lambda: [int(rng.random() < .8) for _ in range(7)]
        if k == 'matrix':
            r = ns()
            t = [k, r, r if rng.random() < .5 else ns(), bits(), s]
        elif k == 'varray':
            t = [k, rng.randrange(2), ns(), s]
        elif k == 'operator':
            r = sh()
            t = [k, r, r if rng.random() < .5 else sh(), s]
        elif k == 'blockop':
            r = shs()
            t = [k, r, r if rng.random() < .6 else shs(), bits(), s]
        else:
            t = [k, rng.choice([[4], [4, 4], [2, 4], [2, 2, 4]]), bits(), s]
        names = sorted(EXPR[k])
        threads = [[(rng.choice(names), rng.random(), rng.choice(sorted(ERR)) if rng.random() < .75 else None) for _ in range(rng.choice([2, 4, 6]))] for _ in range(rng.choice([1, 1, 2, 3]))]
        pol = rng.choice(['walk', 'walk', 'pct', 'hold'])
        return {'prop': 'C10', 'run': i, 'operand': True, 'seed': s, 'mode': rng.choice(['line', 'instr']), 'target': t, 'threads': threads,
                'sched': {'policy': pol, 'p': rng.choice([.2, .05, .01]) if pol == 'walk' else rng.choice([1, 2, 3, 6]), 'seed': rng.randrange(1 << 30), 'est': 2000}}

    def execute(self, spec):
        spec = self.materialise(spec)
        if not spec.get('operand'):
            return super().execute(spec)
        r = proc.forkrun(operand_child, spec, timeout=240)
        if r[0] != 'ok':
            raise proc.HarnessError('run %s: %s' % (spec.get('run'), r))
        res = r[1]
        fired = {}
        for o in res['obs']:
            if o[4]:
                k = 'operand raises ' + o[2][1]
                fired[k] = fired.get(k, 0) + 1
        h = hashlib.sha1(repr((spec['target'], [(o[0], o[1], o[2], o[3][0], canon.digest(o[3][1]) if o[3][0] == 'value' else o[3][1], o[4]) for o in res['obs']], res['switches'])).encode())
        inter = hashlib.sha1(json.dumps(res['locs']).encode()).hexdigest()[:16] if res['locs'] else None
        return {'violations': judge_operands(spec, res), 'digest': h.hexdigest(), 'pin': (res['switches'], res['first']), 'spec': spec,
                'nontrivial': bool(fired or res['locs']), 'interleavings': [inter] if inter else [], 'faults': fired,
                'stats': {'ops': len(res['obs']), 'simulated_events': res['steps'], 'context_switches': len(res['locs'])},
                'sample': {'run': spec['run'], 'target': spec['target'], 'threads': spec['threads']}}

    def nontrivial(self, spec, res):
        return bool(res['locs'] or res['faults'])

    def shrink(self, spec):
        spec = self.materialise(spec)
        if not spec.get('operand'):
            yield from super().shrink(spec)
            return
        if spec['sched'].get('explicit'):
            c = copy.deepcopy(spec)
            c['sched']['explicit'] = []
            yield c
        for t in range(len(spec['threads'])):
            if spec['threads'][t]:
                c = copy.deepcopy(spec)
                c['threads'][t] = []
                yield c
            for j in range(len(spec['threads'][t])):
                c = copy.deepcopy(spec)
                del c['threads'][t][j]
                yield c
        n = len(spec['sched'].get('explicit') or [])
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                c = copy.deepcopy(spec)
                del c['sched']['explicit'][a:a + size]
                yield c
            size //= 2
