"""C04 (nobody's data changes) and C05 (history independence): client programs over every layer of the library."""
import gc
import hashlib
import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np
import scipy.sparse

import canon
import core
import engine
import proc
import vocab
from checks_mesh import MeshCheck, mkspec

ALL = ('mesh', 'st', 'eq')


# ----------------------------------------------------------------------------------------------------------

_cp = {}


def lazies(cls):
    """names of derived quantities that a class computes on first use and then hands out"""
    if cls not in _cp:
        out = set()
        for k in cls.__mro__:
            for n, v in vars(k).items():
                if type(v).__name__ in ('cached_property', 'threaded_cached_property') or isinstance(v, property):
                    out.add(n)
        _cp[cls] = out
    return _cp[cls]


def adigest(a):
    if a.dtype == object:
        return repr(a.shape)
    return hashlib.sha1(str((a.dtype, a.shape)).encode() + np.ascontiguousarray(a).tobytes()).digest()


def sdigest(m):
    return canon.digest(canon._sparse(m))


class Ledger(object):
    """everything some client holds, with its content when it was handed over"""

    def __init__(self, world):
        self.world = world
        self.items = {}       # id -> (object, digest, label)
        self.objs = {}        # id -> (object, canon, label)
        self.seen_reg = set()
        self.violations = []
        self.checks = 0
        self.env0 = {}
        self.global0 = self.globals()
        for k, v in list(world.reg.items()):
            self.hold_obj(v, str(k[0]))
            self.seen_reg.add(k)

    # -- registering
    def put(self, v, label, depth=0):
        if v is None or isinstance(v, (str, int, float, bool, bytes)):
            return
        i = id(v)
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                for x in v.ravel():
                    self.put(x, label, depth + 1)
            elif i not in self.items:
                self.items[i] = (v, adigest(v), label)
        elif scipy.sparse.issparse(v):
            if i not in self.items:
                self.items[i] = (v, sdigest(v), label)
        elif isinstance(v, (list, tuple)):
            if depth < 5:
                for k, x in enumerate(v):
                    self.put(x, label + '[%d]' % k, depth + 1)
        elif isinstance(v, dict):
            for k, x in v.items():
                self.put(x, label + '[%s]' % k, depth + 1)
        elif (type(v).__module__ or '').startswith('pycomplex'):
            self.hold_obj(v, label, depth)

    def hold_obj(self, v, label, depth=0):
        if not (type(v).__module__ or '').startswith('pycomplex'):
            return self.put(v, label, depth)
        if id(v) not in self.objs:
            self.objs[id(v)] = (v, self.describe(v), label)
        self.walk(v, label, depth)

    def describe(self, v):
        """what a client can see of an object without making it compute anything"""
        try:
            return canon.canon(v)
        except Exception as e:
            return ('lit', 'raise', type(e).__name__)

    def walk(self, v, label, depth=0):
        """arrays an object hands out: constructor arguments and derived quantities that already exist"""
        if depth > 3:
            return
        names = lazies(type(v))
        for n, x in list(vars(v).items()):
            if n.startswith('_') or callable(x) and not hasattr(x, '__dict__'):
                continue
            if n in names or n in ('vertices', 'elements', 'weights', 'topology', 'corners', 'incidence', 'boundary_', 'block', 'diagonal', 'data',
                                   'axes', 'system', 'A', 'B', 'L', 'R', 'fields', 'complex', 'parent', 'primal', 'transfers', 'parent_idx',
                                   'transfer_matrices', 'transfer_operators'):
                self.put(x, label + '.' + n, depth + 1)

    # -- hooks called by the engine
    def before(self, op):
        t = core._thread.get_ident()
        if t not in self.env0:
            self.env0[t] = (np.geterr(), np.geterrcall())

    def note(self, a):
        self.put(a, 'argument')

    def hold(self, v, op):
        self.put(v, 'result of %s' % vocab.opname(op))

    def globals(self):
        return {'print options': repr(sorted(np.get_printoptions().items(), key=str)), 'warning filters': repr(warnings.filters),
                'warning display': repr((warnings.showwarning, warnings.formatwarning)),
                'numpy random stream': hashlib.sha1(repr([x if not hasattr(x, 'tobytes') else x.tobytes() for x in np.random.get_state()]).encode()).hexdigest(),
                'python random stream': hashlib.sha1(repr(random.getstate()).encode()).hexdigest(), 'ufunc buffer size': np.getbufsize(),
                'recursion limit': sys.getrecursionlimit(), 'working directory': os.getcwd(), 'environment': hashlib.sha1(repr(sorted(os.environ.items())).encode()).hexdigest(),
                'umask': None, 'switch interval': sys.getswitchinterval(), 'gc': gc.isenabled()}

    def after(self, op):
        name = vocab.opname(op)
        for k, v in list(self.world.reg.items()):
            if k not in self.seen_reg:
                self.seen_reg.add(k)
                self.hold_obj(v, '%s %s' % (k[0], [vocab.stepname(s) for s in json.loads(k[1])]))
        self.check(name, op['i'])
        g = self.globals()
        for k in g:
            if g[k] != self.global0[k]:
                self.violations.append({'kind': 'global-state', 'step': name, 'op': op['i'], 'detail': '%s changed process-wide %s' % (name, k)})
        self.global0 = g
        t = core._thread.get_ident()
        e = (np.geterr(), np.geterrcall())
        if e != self.env0[t]:
            self.violations.append({'kind': 'global-state', 'step': name, 'op': op['i'], 'detail': '%s changed the floating point error state from %s to %s' % (name, self.env0[t], e)})
            self.env0[t] = e

    def check(self, name, i):
        for k, (v, d, label) in list(self.items.items()):
            self.checks += 1
            n = adigest(v) if isinstance(v, np.ndarray) else sdigest(v)
            if n != d:
                self.violations.append({'kind': 'data-changed', 'step': name, 'op': i, 'detail': 'during %s the content of an array held by a client changed: %s (%s)' % (
                    name, label, 'shape %s' % (v.shape,))})
                self.items[k] = (v, n, label)
        # objects may have computed more by now; what that exposes is held from here on
        for k, (v, c, label) in list(self.objs.items()):
            self.walk(v, label)

    def finish(self):
        for k, (v, c, label) in list(self.objs.items()):
            n = self.describe(v)
            self.checks += 1
            # describing is allowed to differ in attributes that were added, not in what was there
            d = canon.diff(n, c, 0, 0)
            if d and (n[0] != 'obj' or c[0] != 'obj' or True):
                self.violations.append({'kind': 'object-changed', 'step': '', 'op': -1, 'detail': 'a %s held by a client (%s) changed: %s' % (type(v).__name__, label, d)})
        return {'violations': self.violations, 'held_arrays': len(self.items), 'held_objects': len(self.objs), 'digest_checks': self.checks}


class C04(MeshCheck):
    prop = 'C04'
    monitor = Ledger
    values = False
    rule = ('one run = 1-3 callers with seeded operations over 1-3 shared objects of every layer (meshes, topologies, stencil complexes, operators, block '
            'systems, equations, solvers), some cut short by an injected failure; all arguments, results and intermediate objects stay held, and '
            'after every operation the bitwise content of all arrays reachable from them (and numpy/python process state) is compared with what it was; '
            'non-trivial = distinct event log with at least two operations on one object')
    assumptions = ['content of sparse matrices is compared in canonical (sorted, summed) form, so storage reorganisation by scipy is not a change',
                   'attributes that appear later (lazy evaluation) are not changes; attributes that were visible must keep their content']

    def runs(self, tier):
        return 1400 if tier == 'quick' else 60000

    def build(self, rng, i, seed, tier):
        n = rng.choice([1, 1, 2, 3])
        fam = ALL if rng.random() < .45 else ('mesh',)
        s = mkspec(rng, i, seed, self.prop, n, rng.choice([4, 8, 12]) if n == 1 else rng.choice([3, 5]), 3, rng.choice([0, .3]), rng.choice(['line', 'line', 'instr']),
                   families=fam, private=.1, raises=.1, blind=True)
        return s

    def more(self, spec, res):
        return res['track']['violations'] if 'track' in res else []

    def stats(self, spec, res):
        t = res.get('track') or {}
        return {'arrays_held': t.get('held_arrays', 0), 'objects_held': t.get('held_objects', 0), 'content_checks': t.get('digest_checks', 0)}


class C05(MeshCheck):
    prop = 'C05'
    rule = ('one run = one process that answers 20-60 seeded queries and derivations on 2-6 related and unrelated objects of every layer in a seeded order, with repeats, '
            'with equal objects built separately, with objects thrown away in between (so that addresses are reused) and from a seeded random-stream state; every answer is '
            'compared with the same question asked first thing in a fresh process; plus a sample of questions under other hash seeds in other interpreters; '
            'non-trivial = distinct history of at least ten answered questions')
    assumptions = ['answers are compared up to rounding (1e-7 relative)', 'reference = the same tree, so a wrong answer given consistently is not seen here (see C08)']

    def runs(self, tier):
        return 900 if tier == 'quick' else 40000

    def build(self, rng, i, seed, tier):
        nops = rng.choice([20, 40, 60])
        fam = rng.choice([('mesh',), ('mesh',), ALL, ('st', 'eq')])
        s = mkspec(rng, i, seed, self.prop, 1, nops, 0, 0, 'line', families=fam, private=.15, raises=.05, nuse=rng.choice([2, 3, 5, 6]), drop=rng.choice([0, .05, .1]))
        s['sched'] = {'explicit': [], 'first': 0}
        return s

    def nontrivial(self, spec, res):
        return sum(1 for o in res['obs'] if o[2] == 'value') >= 10

    def extra(self, tier, seed):
        """other hash seeds: separate interpreters evaluate the same questions"""
        rng = random.Random('%s/hash' % seed)
        per = 2 if tier == 'quick' else 20
        by = {}          # every kind of question about every class of object
        for r in sorted(engine.catalog()['recipes']):
            for node in engine.catalog()['recipes'][r]:
                for k in node['ok']:
                    by.setdefault((node['type'], vocab.stepname(node['steps'][k])), []).append((r, node, k))
        qs = []
        for key in sorted(by):
            for r, node, k in (rng.choice(by[key]) for _ in range(per)):
                qs.append([r, [node['steps'][x] for x in node['path']] + [node['steps'][k]]])
        rng.shuffle(qs)
        n = len(qs)
        seeds = ['0'] + [str(rng.randrange(1, 2 ** 31)) for _ in range(3 if tier == 'quick' else 7)]
        here = os.path.dirname(os.path.abspath(__file__))
        procs = []
        import pickle
        import tempfile
        tmp = tempfile.mkdtemp(prefix='verif-hash-')
        try:
            for s in seeds:
                env = dict(os.environ, PYTHONHASHSEED=s, VERIF_Q=json.dumps(qs))
                out = os.path.join(tmp, s)
                procs.append((s, out, subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(here, 'hashworker.py'), out], env=dict(env, VERIF_Q=''),
                                                       stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
                procs[-1][2].stdin.write(json.dumps(qs).encode())
                procs[-1][2].stdin.close()
            res = {}
            for s, out, p in procs:
                err = p.stderr.read()
                if p.wait() != 0:
                    raise proc.HarnessError('hash worker: %s' % err.decode()[-2000:])
                res[s] = pickle.load(open(out, 'rb'))
        finally:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
        viol = []
        for s in seeds[1:]:
            for (r, p), a, b in zip(qs, res[seeds[0]], res[s]):
                rt, at = vocab.tolerance(p)
                d = canon.diff(b[1], a[1], rt, at) if a[0] == b[0] == 'value' else (None if a[0] == b[0] and a[1] == b[1] else '%s != %s' % (a[:1], b[:1]))
                if d:
                    viol.append({'kind': 'hash-seed', 'step': vocab.stepname(p[-1]), 'detail': '%s %s depends on PYTHONHASHSEED (%s vs %s): %s' % (r, json.dumps(p), seeds[0], s, d),
                                 'spec': {'hash': [seeds[0], s], 'q': [r, p]}})
        return {'hash_seeds': len(seeds), 'questions_per_hash_seed': n}, viol

    def execute(self, spec):
        if 'hash' in spec:       # replay of a hash seed violation
            cov, viol = self.extra_one(spec)
            return {'violations': viol, 'stats': {}, 'digest': '', 'pin': ([], 0)}
        return super(C05, self).execute(spec)

    def extra_one(self, spec):
        import pickle
        import tempfile
        here = os.path.dirname(os.path.abspath(__file__))
        out = []
        for s in spec['hash']:
            with tempfile.NamedTemporaryFile() as f:
                subprocess.run([sys.executable, '-W', 'ignore', os.path.join(here, 'hashworker.py'), f.name], env=dict(os.environ, PYTHONHASHSEED=s),
                               input=json.dumps([spec['q']]).encode(), check=True)
                out.append(pickle.load(open(f.name, 'rb'))[0])
        a, b = out
        d = canon.diff(b[1], a[1]) if a[0] == b[0] == 'value' else (None if a == b else 'outcome differs')
        return {}, ([{'kind': 'hash-seed', 'step': '', 'detail': d}] if d else [])
