"""Simulated executions of client programs over meshes, compared op by op with fault-free, single-threaded
evaluation on a freshly built mesh in a fresh process."""
import gc
import hashlib
import json
import random

import core
import vocab
import canon
import proc


# ----------------------------------------------------------------------------------------------------------
# reference

def _eval_path(recipe, path):
    R = vocab.recipes()

    def ev(r, p):
        x = R[r]()
        for s in p:
            x = vocab.apply_step(x, s, ev)
        return x
    return ev(recipe, path)


def _ref_child(recipe, path, mode):
    out = {}

    def body(sim, t):
        sim.begin(t, 0)
        try:
            v = _eval_path(recipe, path)
        except (core.SimKilled, core.StepCap, core.Deadlock):
            raise
        except Exception as e:
            sim.end(t)
            out['value'] = ('raise', type(e).__name__)
            out['text'] = str(e)[:200]
        else:
            sim.end(t)
            out['value'] = ('value', canon.canon(v))
        out['steps'] = t.k
    sim = core.Sim([body], core.ReplaySchedule([]), mode, cap=60000000)
    sim.run()
    if sim.threads[0].error is not None:
        raise sim.threads[0].error
    return out


_refs = {}


def reference(recipe, path, mode='line'):
    key = (recipe, json.dumps(path), mode)
    if key not in _refs:
        if len(_refs) > 3000:
            _refs.clear()
        r = proc.forkrun(_ref_child, recipe, path, mode)
        if r[0] != 'ok':
            raise proc.HarnessError('reference %s failed: %s' % (key, r))
        _refs[key] = r[1]
    return _refs[key]


# ----------------------------------------------------------------------------------------------------------
# simulated run

class World(object):
    """objects shared by the clients of one run"""

    def __init__(self, spec):
        self.R = vocab.recipes()
        self.reg = {}
        self.prebuild = spec.get('prebuild', True)

    def reset(self, spec):
        self.reg.clear()
        if self.prebuild:
            for r in sorted({op['r'] for rd in (spec.get('rounds') or [spec]) for th in rd['threads'] for op in th}):
                self.reg[(r, '[]')] = self.R[r]()

    def get(self, recipe, path, private=False, note=None):
        """resolve a path, reusing (and registering) the objects earlier ops left behind"""
        reg = {} if private else self.reg

        def ev(r, p):
            return self.get(r, p, private, note)
        best = None
        for n in range(len(path), -1, -1):
            key = (recipe, json.dumps(path[:n]))
            if n < len(path) and key in reg:
                best = n
                break
        if best is None:
            x = self.R[recipe]()
            reg.setdefault((recipe, '[]'), x)
            x = reg[(recipe, '[]')]
            best = 0
        else:
            x = reg[(recipe, json.dumps(path[:best]))]
        for n in range(best, len(path)):
            x = vocab.apply_step(x, path[n], ev, note)
            if n + 1 < len(path):
                reg.setdefault((recipe, json.dumps(path[:n + 1])), x)
        return x

    def keep(self, recipe, path, value):
        mod = type(value).__module__ or ''
        if mod.startswith('pycomplex'):
            self.reg.setdefault((recipe, json.dumps(path)), value)


def make_schedule(s):
    if 'explicit' in s:
        return core.ReplaySchedule(s['explicit'], s.get('first', 0))
    return core.RandomSchedule(random.Random(s['seed']), s['policy'], s['p'], s.get('est', 1000))


def run_child(spec, monitor=None):
    """executes one spec in this (forked) process. returns observations"""
    import numpy as np
    np.random.seed(spec.get('npseed', 1))
    world = World(spec)
    world.reset(spec)
    track = monitor(world) if monitor else None
    obs = []      # (tid, opid, outcome, value, k, fired)

    def do(sim, t, op, tid):
        if op.get('drop'):
            world.reg.clear()
            gc.collect()
        if track:
            track.before(op)
        def noted(a):
            t.quiet, q = True, t.quiet       # what the ledger looks at is no part of the call
            try:
                track.note(a)
            finally:
                t.quiet = q
        note = noted if track else None
        sim.begin(t, op['i'], tuple(op['fault']) if op.get('fault') else None)
        try:
            v = world.get(op['r'], op['p'], op.get('private', False), note)
            sim.end(t)
        except (core.SimKilled, core.StepCap, core.Deadlock):
            sim.end(t)
            raise
        except BaseException as e:
            sim.end(t)
            inj = core.carries_injection(e)
            obs.append((tid, op['i'], 'injected' if inj else 'raise', type(e).__name__ + ('' if inj else ': ' + str(e)[:200]), t.k, t.fired))
        else:
            c = canon.canon(v)
            obs.append((tid, op['i'], 'value', c, t.k, t.fired))
            if not op.get('private'):
                world.keep(op['r'], op['p'], v)
            if track:
                track.hold(v, op)
        if track:
            track.after(op)

    def mk(ops, tid):
        def body(sim, t):
            for op in ops:
                do(sim, t, op, tid)
        return body
    rounds = spec.get('rounds') or [spec]
    res = {'switches': [], 'locs': [], 'first': 0, 'faults': [], 'steps': 0, 'dead': [], 'rounds': []}
    warm = cold = 1000
    for n, rd in enumerate(rounds):
        fresh = rd.get('fresh', False)
        if fresh == 'auto':
            fresh = warm < 6
        if fresh:
            world.reset(spec)
        s = dict(rd['sched'])
        if s.get('est') == 'auto':
            s['est'] = max(2, cold if fresh else warm)
        threads = rd['threads']
        if rd.get('fault') == 'auto':       # position relative to what the call takes in this state
            threads = [[dict(o, fault=[1 + int(o['fault'][0] * (cold if fresh else warm)), o['fault'][1]]) if o.get('fault') else o for o in th] for th in threads]
        bodies = [mk(ops, i) for i, ops in enumerate(threads)]
        sim = core.Sim(bodies, make_schedule(s), spec['mode'], cap=spec.get('cap', 30000000))
        sim.run()
        if sim.dead:
            res['dead'].append((sim.dead, [(t.tid, t.op, t.k) for t in sim.threads]))
        for t in sim.threads:
            if t.error is not None and not isinstance(t.error, (core.Deadlock, core.StepCap)):
                raise proc.HarnessError(t.tb)
        if n == 0:
            res['switches'], res['first'] = sim.switches, getattr(sim, 'first', 0)
        if 'rounds' in spec:
            res['rounds'].append({'threads': threads, 'fresh': bool(fresh), 'sched': {'explicit': sim.switches, 'first': getattr(sim, 'first', 0)}})
            if rd.get('measure') == 'cold':
                cold = sim.threads[0].k
            elif rd.get('measure') == 'warm':
                warm = sim.threads[0].k
        res['locs'] += sim.switch_locs
        res['faults'] += sim.fault_log
        res['steps'] += sim.steps
        if sim.dead or 'rounds' in spec and res['steps'] > spec.get('budget', 120000):
            break
    # audit: one caller, no faults
    if not res['dead'] and spec.get('audit'):
        def audit(s2, t):
            for op in spec['audit']:
                do(s2, t, op, -1)
        s2 = core.Sim([audit], core.ReplaySchedule([]), spec['mode'], cap=spec.get('cap', 30000000))
        s2.run()
        if s2.dead:
            res['dead'].append((s2.dead, 'audit'))
        for t in s2.threads:
            if t.error is not None and not isinstance(t.error, (core.Deadlock, core.StepCap)):
                raise proc.HarnessError(t.tb)
        res['steps'] += s2.steps
    res['obs'] = obs
    if track:
        res['track'] = track.finish()
    return res


def all_ops(spec):
    return [op for rd in (spec.get('rounds') or [spec]) for th in rd['threads'] for op in th] + list(spec.get('audit') or [])


def judge(spec, res, values=True):
    """violations of one run: list of dicts"""
    out = []
    ops = {op['i']: op for op in all_ops(spec)}
    for d in res['dead']:
        out.append({'kind': d[0], 'detail': 'no progress: %s' % (d[1],), 'step': ''})
    if not values:
        return out
    for tid, i, kind, val, k, fired in res['obs']:
        op = ops[i]
        ref = reference(op['r'], op['p'])
        name = vocab.opname(op)
        if kind == 'injected':
            continue                    # the failure was reported
        if kind == 'raise':
            if ref['value'][0] == 'raise' and ref['value'][1] == val.split(':')[0]:
                continue
            out.append({'kind': 'spurious-error', 'step': name, 'op': i, 'tid': tid,
                        'detail': '%s on %s: raised %s, alone it gives %s' % (name, op['r'], val, canon.short(ref['value'], 80))})
            continue
        if ref['value'][0] == 'raise':
            out.append({'kind': 'missing-error', 'step': name, 'op': i, 'tid': tid,
                        'detail': '%s on %s returned a value, alone it raises %s' % (name, op['r'], ref['value'][1])})
            continue
        rt, at = vocab.tolerance(op['p'])
        d = canon.diff(val, ref['value'][1], rt, at)
        if d:
            out.append({'kind': 'wrong-value', 'step': name, 'op': i, 'tid': tid, 'fired': fired,
                        'detail': '%s %s on %s differs from evaluation alone: %s' % (name, json.dumps(op['p']), op['r'], d)})
    return out


def logdigest(res):
    h = hashlib.sha1()
    h.update(json.dumps([res['switches'], res['first'], res['rounds'], res['faults'], res['steps'], res['dead']], default=str).encode())
    for tid, i, kind, val, k, fired in res['obs']:
        h.update(repr((tid, i, kind, k, fired)).encode())
        h.update((canon.digest(val) if kind == 'value' else str(val)).encode())
    return h.hexdigest()


# ----------------------------------------------------------------------------------------------------------
# generation

_cat = None


def catalog():
    global _cat
    if _cat is None:
        import os
        here = os.path.dirname(os.path.abspath(__file__))
        _cat = {'recipes': {}}
        for f in ('catalog.json', 'catalog_st.json'):
            c = json.load(open(os.path.join(here, f)))
            for nodes in c['recipes'].values():
                for n in nodes:
                    n['steps'] = c['steps']
            _cat['recipes'].update(c['recipes'])
    return _cat


def pick_path(rng, recipe, raises=.03, deep=.5):
    c = catalog()
    nodes = c['recipes'][recipe]
    n = nodes[0] if rng.random() > deep else rng.choice(nodes)
    return path_in(rng, n, raises)


def path_in(rng, n, raises=.03):
    if n['raises'] and rng.random() < raises:
        s = rng.choice(n['raises'])
    else:
        s = rng.choice(n['ok'])
    return [n['steps'][i] for i in n['path']] + [n['steps'][s]]


def recipe_group(i, families=('mesh',), groups=8):
    # few recipes per worker, so that it meets the same reference values again
    names = [r for r in sorted(catalog()['recipes']) if vocab.family(r) in families]
    stems = sorted({vocab.stem(r) for r in names})[i % groups::groups]
    return [r for r in names if vocab.stem(r) in stems]


def siblings(recipe):
    return [r for r in sorted(catalog()['recipes']) if vocab.stem(r) == vocab.stem(recipe) and r != recipe]


_classes = {}


def pick_class(rng, names):
    """a node of a class chosen uniformly among the classes that occur, preferring few derivations"""
    key = tuple(names)
    if key not in _classes:
        by = {}
        for r in names:
            for n in catalog()['recipes'][r]:
                by.setdefault(n['type'], []).append((r, n))
        _classes[key] = by
    by = _classes[key]
    nodes = by[rng.choice(sorted(by))]
    return min((rng.choice(nodes) for _ in range(2)), key=lambda rn: len(rn[1]['path']))


_strata = {}


def strata(names):
    """kinds of question that can be asked, and pairs of one kind with other kinds of arguments -> where to ask them"""
    key = tuple(names)
    if key not in _strata:
        by = {}
        for r in names:
            for n in catalog()['recipes'][r]:
                forms = {}
                for k in n['ok']:
                    s = n['steps'][k]
                    by.setdefault((vocab.stepname(s), '', ''), {}).setdefault(n['type'], []).append((r, n, k, None))
                    forms.setdefault(vocab.stepname(s), {}).setdefault(vocab.form(s), []).append(k)
                for name, f in forms.items():
                    for x in sorted(f):
                        for y in sorted(f):
                            if x != y:
                                by.setdefault((name, x, y), {}).setdefault(n['type'], []).append((r, n, f[x], f[y]))
        # no kind of question takes more than its share
        few = {}
        for k in sorted(by):
            few.setdefault(k[0], []).append(k)
        rng = random.Random(repr(names))
        for name in few:
            rng.shuffle(few[name])
        _strata[key] = by, few
    return _strata[key]


def pick_stratum(rng, names, seed, j, share=12):
    """the j-th kind of question, or pair of questions, in a seeded order: path and possibly another last step"""
    by, few = strata(names)
    r = random.Random('%s/strata' % seed)
    keys = [k for name in sorted(few) for k in r.sample(few[name], min(share, len(few[name])))]
    r.shuffle(keys)
    by = by[keys[j % len(keys)]]
    nodes = by[rng.choice(sorted(by))]
    r, n, k, l = min((rng.choice(nodes) for _ in range(2)), key=lambda x: len(x[1]['path']))
    p = [n['steps'][x] for x in n['path']]
    if l is None:
        return r, n, p + [n['steps'][k]], None
    return r, n, p + [n['steps'][rng.choice(k)]], n['steps'][rng.choice(l)]


_derivations = None


def derivations():
    """steps that lead to nodes of the catalogue"""
    global _derivations
    if _derivations is None:
        _derivations = [s for s in (json.loads(t) for t in {json.dumps(n['steps'][n['path'][-1]]) for v in catalog()['recipes'].values() for n in v if n['path']})]
    return _derivations
