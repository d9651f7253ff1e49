"""C08: every mesh reached by any derivation history is structurally sound."""
import collections
import copy
import hashlib
import json
import random

import numpy as np

import canon
import core
import engine
import invariants
import proc
import vocab
from checks_mesh import MeshCheck, mkspec

LIMIT = 260         # top elements of the largest mesh that is derived from further


# ----------------------------------------------------------------------------------------------------------
# starting meshes

def _fan(n):
    """many triangles around one vertex"""
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2
    a = np.arange(n) * 2 * np.pi / n
    v = np.concatenate([[[0, 0]], np.array([np.cos(a), np.sin(a)]).T * n / 6])
    return ComplexTriangularEuclidian2(vertices=v, triangles=[[0, 1 + i, 1 + (i + 1) % n] for i in range(n)])


def _loose():
    """strips of triangles, and triangles without neighbors before, between and after them"""
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2
    v, t = [], []
    for k, m in enumerate((1, 3, 1, 2, 1, 1)):
        o = len(v)
        v += [[.5 * i, 3 * k + (i % 2) * .8] for i in range(m + 2)]
        t += [[o + i, o + i + 1, o + i + 2] if i % 2 else [o + i, o + i + 2, o + i + 1] for i in range(m)]
    return ComplexTriangularEuclidian2(vertices=np.array(v), triangles=t)


def _looseq():
    from pycomplex.complex.cubical import ComplexCubical2Euclidian2
    v = np.array([[x, y] for x in range(8) for y in range(2)], float)
    q = [[[2 * x, 2 * x + 1], [2 * x + 2, 2 * x + 3]] for x in (0, 2, 3, 6)]
    used = np.unique(q)
    return ComplexCubical2Euclidian2(vertices=v[used], cubes=np.searchsorted(used, q))


def _annulus(n=5):
    from pycomplex.complex.cubical import ComplexCubical2Euclidian2
    a = np.arange(n) * 2 * np.pi / n
    r = np.array([np.cos(a), np.sin(a)]).T
    return ComplexCubical2Euclidian2(vertices=np.concatenate([r, 2 * r]), cubes=[[[i, (i + 1) % n], [n + i, n + (i + 1) % n]] for i in range(n)])


def _edgetets():
    """two tetrahedra that share nothing but an edge, and one that shares a face with one of them"""
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    v = np.array([[0, 0, -.5], [0, 0, .5], [1, .4, 0], [1, -.4, 0], [-1, .4, 0], [-1, -.4, 0], [1.6, 0, .7]])
    return ComplexSimplicialEuclidian(vertices=v, simplices=[[0, 1, 2, 3], [0, 1, 5, 4], [1, 2, 3, 6]]).fix_orientation()


def _ints(c, k):
    """integer positions"""
    return c.copy(vertices=np.rint(c.vertices * k).astype(int))


def recipes():
    from pycomplex import synthetic as s
    R = {k: f for k, f in vocab.recipes().items() if vocab.family(k) == 'mesh' and k != 'cubenm' and '~' not in k}
    R.update({'cube6': lambda: s.n_cube(6), 'dual5': lambda: s.n_cube_dual(5), 'fan': lambda: _fan(140), 'loose': _loose, 'looseq': _looseq, 'annulus': _annulus,
              'igrid': lambda: _ints(s.n_cube_grid((2, 2), centering=False), 3).as_22(), 'itri': lambda: _ints(vocab._trigrid(2), 10), 'iline': lambda: s.n_simplex(1),
              'edgetets': _edgetets, 'simplex5': lambda: s.n_simplex(5)})
    return R


def start(spec):
    """recipe, optionally rebuilt with other vertex labels, element order, corner order, and with weights"""
    x = recipes()[spec['r']]()
    if spec.get('part'):
        x = part(x, spec['part'])
    if spec.get('shuffle'):
        x = shuffled(x, spec)
    if spec.get('w') and hasattr(x, 'weights'):
        r = np.random.RandomState(spec['w'])
        E = x.topology.elements[1]
        h = ((x.vertices[E[:, 0]] - x.vertices[E[:, 1]]) ** 2).sum(1).min()
        x = x.copy(weights=r.uniform(0, .1 * h, len(x.vertices)))
    return x


def part(x, seed):
    """some of the elements, as a mesh of its own"""
    r = np.random.RandomState(seed)
    T = x.topology
    E = np.array(T.elements[-1])
    keep = r.uniform(size=len(E)) < r.choice([.3, .6, .9])
    if not keep.any():
        keep[r.randint(len(E))] = True
    E = E[keep]
    used = np.unique(E)
    kw = {}
    if getattr(x, 'radius', 1) != 1:
        kw['radius'] = x.radius
    return type(x)(vertices=x.vertices[used], topology=type(T).from_elements(np.searchsorted(used, E)), **kw)


def shuffled(x, spec):
    r = np.random.RandomState(spec['shuffle'])
    T = x.topology
    E = np.array(T.elements[-1])
    N = len(x.vertices)
    lab = r.permutation(N)
    V = np.empty_like(x.vertices)
    V[lab] = x.vertices
    E = lab[E][r.permutation(len(E))]
    flip = r.uniform(size=len(E)) < spec.get('flip', 0)
    if E.ndim == 2 and 'Cubical' not in type(T).__name__:
        k = E.shape[1]
        for i in range(len(E)):
            if k > 2:
                q = r.permutation(k)
                # even permutations keep the orientation
                if sum(1 for a in range(k) for b in range(a) if q[b] > q[a]) % 2:
                    q[[0, 1]] = q[[1, 0]]
                E[i] = E[i][q]
            if flip[i]:
                E[i, [0, 1]] = E[i, [1, 0]]
    else:
        for i in np.flatnonzero(flip):
            E[i] = np.flip(E[i], axis=0)
    kw = {}
    if getattr(x, 'radius', 1) != 1:
        kw['radius'] = x.radius
    return type(x)(vertices=V, topology=type(T).from_elements(E), **kw)


def factor(obj, s, limit=LIMIT):
    """number of top elements after the step, roughly"""
    T = getattr(obj, 'topology', obj)
    n, m = T.n_dim, T.n_elements[-1]
    if sum(T.n_elements) > 400 and n > 4 or s[1] == 'product' and sum(T.n_elements) > 250:
        return limit + 1
    cub = 'Cubical' in type(T).__name__
    f = {'subdivide_fundamental': invariants.fact(n) * 2 ** n if cub else invariants.fact(n + 1), 'subdivide_cubical': 2 ** n if cub else n + 1,
         'subdivide_simplicial': 4 if cub else n + 1, 'subdivide_loop': 4, 'subdivide_loop_direct': 4, 'product': 3, 'extrude': 3, 'clip': 2}.get(s[1], 1)
    return m * f


WEIGHT = {'copy': .3, 'scale': .3, 'translate': .3, 'transform': .3, 'parent': 0, 'topology': .6, 'dual': 0, 'subdivide_loop_direct': 2, 'clip': 1.5, 'extrude': 2, 'product': 1.5}


def applicable(obj, s):
    """does this kind of mesh offer the step?"""
    cx = hasattr(obj, 'topology') and hasattr(obj, 'vertices')
    T = obj.topology if cx else obj
    name = s[1]
    if not hasattr(type(obj), name) and name not in ('topology', 'parent'):
        return False
    if name == 'as_2':
        return obj.n_dim == 2 if cx and hasattr(type(obj), 'as_3') else T.n_dim == 2
    if name == 'as_3':
        return obj.n_dim == 3 and T.n_dim == 2
    if name == 'as_cube':
        return T.n_dim == 1
    if name == 'as_spherical':
        return bool(np.allclose(np.linalg.norm(obj.vertices, axis=1), 1))
    if name == 'transform':
        return 'Regular' not in type(obj).__name__
    if name == 'product' and T.n_dim > 5:
        return False
    if name == 'as_regular':
        return regular(obj)
    if name in ('subdivide_loop', 'subdivide_loop_direct', 'clip', 'extrude') and T.n_dim != 2:
        return False
    if name == 'translate' and obj.n_dim > 4:
        return False
    if name == 'subdivide_loop' and type(obj).__name__ == 'ComplexSpherical2':
        return len(s) < 4
    if name == 'boundary' and type(obj).__name__ == 'ComplexSpherical2':
        return bool(T.is_closed) if invariants.oriented(T) else False
    return True


def regular(C):
    """axis-aligned boxes, as regular complexes presume"""
    V, E = C.vertices, C.topology.elements[-1]
    X = V[E.reshape(len(E), -1)]
    lo, hi = X.min(1)[:, None], X.max(1)[:, None]
    return bool((np.isclose(X, lo) | np.isclose(X, hi)).all())


def choose(obj, u, limit=LIMIT):
    """the step number u in [0,1) stands for"""
    D = [s for s in vocab.candidates(obj, '')[0] if WEIGHT.get(s[1], 1) > 0 and applicable(obj, s) and factor(obj, s, limit) <= limit]
    if not D:
        return None
    w = [WEIGHT.get(s[1], 1) for s in D]
    u *= sum(w)
    for s, a in zip(D, w):
        u -= a
        if u < 0:
            return s
    return D[-1]


# ----------------------------------------------------------------------------------------------------------
# what has to succeed

def admissible(obj, s, args):
    """has this step to succeed?"""
    cx = hasattr(obj, 'topology') and hasattr(obj, 'vertices')
    T = obj.topology if cx else obj
    n = T.n_dim
    name = s[1]
    if n == 0:
        return False
    if cx and not invariants.shapely(obj) and (name.startswith('subdivide') or name in ('smooth', 'clip')):
        return False
    if name in ('topology', 'copy', 'scale', 'translate', 'transform', 'smooth', 'subdivide_loop_direct'):
        return True
    if name == 'subdivide_loop':
        return True
    if name == 'select_subset':
        return bool(np.any(args[0]))
    if name == 'fix_orientation':
        return invariants.oriented(T) is not None and invariants.orientable(T)
    if name == 'boundary':
        return bool(invariants.oriented(T))
    if name == 'subdivide_cubical' and 'Cubical' in type(T).__name__:
        return True
    if name == 'subdivide_fundamental':
        return n > 1 or 'Cubical' in type(T).__name__
    if name == 'product':
        return True
    if name.startswith('as_') and s[1][3:].isdigit():
        return True
    return False


HEALTHY = ('AttributeError', 'TypeError', 'NotImplementedError')


def step_args(obj, s):
    """fresh, deterministic argument values of a step (as apply_step makes them)"""
    def ev(r, p):
        return engine._eval_path(r, p)
    if s[0] != 'call':
        return []
    return [vocab.Args.make(a, obj, ev) for a in (s[2] if len(s) > 2 else ())]


def audit(f, r):
    """arrays that do not even fit together are a finding, not a failure of the audit"""
    try:
        return f()
    except MemoryError:
        raise
    except Exception as e:
        r.ok(False, 'arrays do not fit together', '%s: %s' % (type(e).__name__, str(e)[:150]))


def child(spec):
    np.random.seed(spec.get('npseed', 1))
    bases = [start(b) for b in spec['bases']]
    made = {}                   # op id -> object
    log = []                    # (tid, op, outcome, step)
    info = {}                   # op id -> (parent object, step, result)
    R = vocab.recipes()

    def ev(r, p):
        x = R[r]()
        for s in p:
            x = vocab.apply_step(x, s, ev)
        return x

    def mk(ops, tid):
        def body(sim, t):
            for op in ops:
                on = made.get(op['on'], bases[op['base'] % len(bases)])
                # the choice of the step is the harness's; library code it runs is not an event
                try:
                    s = op.get('s') or choose(on, op['u'], spec.get('limit', LIMIT))
                    if s is None:
                        continue
                    args = step_args(on, s)
                except (core.SimKilled, core.StepCap, core.Deadlock):
                    raise
                except Exception:
                    # nothing can be chosen on a mesh this broken; the audit will say what is wrong with it
                    continue
                tries = ([op['fault']] if op.get('fault') else []) + [None]
                for j, f in enumerate(tries):
                    held = {}

                    def note(a, held=held):
                        held.setdefault('args', []).append(a)
                    sim.begin(t, 4 * op['i'] + j, tuple(f) if f else None)
                    try:
                        v = vocab.apply_step(on, s, ev, note)
                        sim.end(t)
                    except (core.SimKilled, core.StepCap, core.Deadlock):
                        sim.end(t)
                        raise
                    except BaseException as e:
                        sim.end(t)
                        inj = core.carries_injection(e)
                        log.append((tid, op['i'], 'injected' if inj else 'raise', s[1], type(e).__name__ + ('' if inj else ': ' + str(e)[:120]), t.fired))
                        if not inj:
                            info[op['i']] = (on, s, None, args, '%s: %s' % (type(e).__name__, str(e)[:120]), op['base'])
                            break
                    else:
                        log.append((tid, op['i'], 'value', s[1], type(v).__name__, t.fired))
                        if hasattr(v, 'elements') or hasattr(v, 'topology'):
                            made[op['i']] = v
                            info[op['i']] = (on, s, v, held.get('args', []), None, op['base'])
                        break
        return body
    sim = core.Sim([mk(ops, i) for i, ops in enumerate(spec['threads'])], engine.make_schedule(spec['sched']), spec['mode'], cap=30000000)
    sim.run()
    dead = []
    if sim.dead:
        dead.append((sim.dead, [(t.tid, t.op, t.k) for t in sim.threads]))
    for t in sim.threads:
        if t.error is not None and not isinstance(t.error, (core.Deadlock, core.StepCap)):
            raise proc.HarnessError(t.tb)
    # the audit
    viol, checks, meshes = [], 0, 0

    def chain(i):
        out = []
        while i is not None and i in info:
            out.append(info[i][1][1] + ('(%s)' % ','.join(sorted(info[i][1][3])) if len(info[i][1]) > 3 else ''))
            i = by[i]['on']
        return '.'.join(reversed(out))
    by = {op['i']: op for th in spec['threads'] for op in th}
    digest = hashlib.sha1()
    if not dead:
        todo = [(spec['bases'][j]['r'], b, None) for j, b in enumerate(bases)]
        todo += [('%s.%s' % (spec['bases'][x[5] % len(bases)]['r'], chain(i)), x[2], i) for i, x in sorted(info.items())]
        for where, obj, i in todo:
            if i is not None:
                on, s, v, args, err, _ = info[i]
                if err:
                    r = invariants.Report(where)
                    if audit(lambda: admissible(on, s, args), r):
                        viol.append({'kind': 'refused', 'step': s[1], 'detail': '%s raised %s' % (where, err)})
                    continue
                r = invariants.Report(where)
                audit(lambda: invariants.step(on, s, v, args, r), r)
                viol += r.out
                checks += r.n
            if obj is None:
                continue
            r = invariants.Report(where)
            if hasattr(obj, 'vertices') and hasattr(obj, 'topology'):
                audit(lambda: invariants.complex_(obj, r), r)
            else:
                audit(lambda: invariants.topology(obj, r), r)
            viol += r.out
            checks += r.n
            meshes += 1
            T = getattr(obj, 'topology', obj)
            digest.update(repr((where, list(T.n_elements))).encode())
            digest.update(np.ascontiguousarray(T.elements[-1]).tobytes())
    return {'log': log, 'viol': viol[:40], 'checks': checks, 'meshes': meshes, 'switches': sim.switches, 'first': getattr(sim, 'first', 0), 'locs': sim.switch_locs,
            'faults': sim.fault_log, 'steps': sim.steps, 'dead': dead, 'mesh': digest.hexdigest(), 'deepest': max([len(chain(i).split('.')) for i in info] or [0])}


class C08(MeshCheck):
    prop = 'C08'
    rule = ('one run = 1-3 callers that each take 2-6 derivation steps (chosen by a seeded draw from everything that can be derived from the mesh at hand) from 1-2 shared '
            'starting meshes (49 recipes, half of them rebuilt with other vertex labels, element order, corner order and orientation), with preemption and with steps cut short '
            'and retried; afterwards every mesh reached and every step taken is checked against invariants computed from raw arrays; non-trivial = a preemption or fault inside a step, or a '
            'history of at least two steps; distinct by event log and resulting meshes')
    assumptions = ['preemption and aborts happen between Python bytecodes of library code', 'meshes of up to %d (some runs %d) top elements are derived from' % (LIMIT, 4 * LIMIT)]

    def runs(self, tier):
        return 1300 if tier == 'quick' else 60000

    def build(self, rng, i, seed, tier):
        names = sorted(recipes())
        bases = []
        for _ in range(rng.choice([1, 1, 2])):
            b = {'r': rng.choice(names)}
            if rng.random() < .5:
                b['shuffle'] = 1 + rng.randrange(10 ** 6)
                b['flip'] = rng.choice([0, 0, .3])
            if rng.random() < .25:
                b['part'] = 1 + rng.randrange(10 ** 6)
            if rng.random() < .2:
                b['w'] = 1 + rng.randrange(10 ** 6)
            bases.append(b)
        ids = iter(range(10 ** 6))
        threads = []
        faulty = rng.random() < .6
        for t in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([2, 3, 4, 6])):
                o = {'i': next(ids), 'base': rng.randrange(len(bases)), 'u': round(rng.random(), 6)}
                o['on'] = rng.choice(ops)['i'] if ops and rng.random() < .3 else ops[-1]['i'] if ops and rng.random() < .8 else None
                if o['on'] is not None:
                    o['base'] = next(x for x in ops if x['i'] == o['on'])['base']
                if faulty and rng.random() < .5:
                    o['fault'] = [int(10 ** rng.uniform(0, 2.6)), rng.choice(core.FAULT_KINDS)]
                ops.append(o)
            threads.append(ops)
        pol = rng.choice(['walk', 'walk', 'pct', 'hold'])
        mode = rng.choice(['line', 'line', 'instr'])
        return {'prop': 'C08', 'run': i, 'seed': seed, 'mode': mode, 'limit': rng.choice([LIMIT] * 5 + [4 * LIMIT]), 'npseed': rng.randrange(1 << 30), 'bases': bases, 'threads': threads,
                'sched': {'policy': pol, 'p': rng.choice([.3, .05, .01]) if pol == 'walk' else rng.choice([1, 2, 3, 6]), 'seed': rng.randrange(1 << 30), 'est': 1500}}

    def execute(self, spec):
        spec = self.materialise(spec)
        r = proc.forkrun(child, spec, timeout=240)
        if r[0] != 'ok':
            raise proc.HarnessError('run %s: %s' % (spec.get('run'), r))
        res = r[1]
        viol = list(res['viol']) + [{'kind': d[0], 'step': '', 'detail': 'no progress: %s' % (d[1],)} for d in res['dead']]
        h = hashlib.sha1(json.dumps([res['log'], res['switches'], res['first'], res['faults'], res['steps'], res['mesh']], default=str).encode()).hexdigest()
        out = collections.Counter(o[2] for o in res['log'])
        inter = hashlib.sha1(json.dumps(res['locs']).encode()).hexdigest()[:16] if res['locs'] else None
        steps = collections.Counter('step ' + o[3] for o in res['log'] if o[2] == 'value')
        return {'violations': viol, 'digest': h, 'pin': (res['switches'], res['first']), 'spec': spec, 'nontrivial': bool(res['locs'] or res['faults'] or res['deepest'] > 1),
                'interleavings': [inter] if inter else [], 'faults': dict(collections.Counter(f[3] for f in res['faults'])),
                'stats': {'steps_taken': len(res['log']), 'steps_value': out['value'], 'steps_aborted': out['injected'], 'steps_refused': out['raise'], 'invariants_checked': res['checks'],
                          'meshes_audited': res['meshes'], 'simulated_events': res['steps'], 'context_switches': len(res['locs']), **steps},
                'sample': {'run': spec['run'], 'bases': spec['bases'], 'steps': [o[:4] for o in res['log']], 'faults': res['faults'][:3]}}

    def shrink(self, spec):
        spec = self.materialise(spec)
        yield from MeshCheck.shrink(self, spec)
        for j, b in enumerate(spec['bases']):
            if b.get('shuffle'):
                c = copy.deepcopy(spec)
                c['bases'][j].pop('shuffle')
                yield c
            if b.get('part'):
                c = copy.deepcopy(spec)
                c['bases'][j].pop('part')
                yield c
            if b.get('w'):
                c = copy.deepcopy(spec)
                c['bases'][j].pop('w')
                yield c
