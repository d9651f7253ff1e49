"""C01, C02, C04, C05: client programs over shared meshes."""
import collections
import copy
import hashlib
import json
import random

import core
import engine
import proc
import vocab
import canon
from driver import Check

REAL = ['all of pycomplex.topology, pycomplex.complex, pycomplex.geometry, pycomplex.math, pycomplex.sparse reached by the clients',
        'numpy, scipy, numpy_indexed, pycosat, cached_property, fastcache (as installed)']
STUB = ['thread scheduler (cooperative baton instead of the OS)', 'locks created by the code under test (cooperative)',
        'failures (raised by the simulator at instruction or line events)']


def mkspec(rng, i, seed, prop, nthreads, nops, naudit, faults, mode, group=None, raises=.03, private=.08, deep=.5, fixed=None,
           families=('mesh',), blind=False, nuse=None, drop=0):
    names = engine.recipe_group(i, families)
    k = nuse or rng.choice([1, 1, 1, 2, 2, 3])
    use = [rng.choice(names) for _ in range(k)]
    if fixed:
        use = fixed
    elif rng.random() < .4:
        use += [x for r in use for x in engine.siblings(r)]
    # focus: most ops go to a few nodes, so that clients meet in the same lazily derived state
    cat = engine.catalog()
    focus = []
    for r in use:
        nodes = cat['recipes'][r]
        focus += [(r, nodes[0])] + [(r, rng.choice(nodes)) for _ in range(rng.choice([1, 2]))]
    ids = iter(range(10 ** 6))
    hot = None

    def op(fault):
        nonlocal hot
        if hot is not None and rng.random() < .25:
            r, p = hot
            if rng.random() < .4:
                p = p[:-1] + [vocab.vary(rng, p[-1])]
            elif rng.random() < .3 and engine.siblings(r):
                r = rng.choice(engine.siblings(r))
        else:
            if rng.random() < .8:
                r, n = rng.choice(focus)
            else:
                r = rng.choice(use)
                n = rng.choice(cat['recipes'][r])
            p = engine.path_in(rng, n, raises)
        if rng.random() < .4:
            hot = (r, p)
        o = {'i': next(ids), 'r': r, 'p': p}
        if rng.random() < private:
            o['private'] = True
        if drop and rng.random() < drop:
            o['drop'] = True
        if fault and rng.random() < fault:
            n = int(10 ** rng.uniform(.5, 3.5)) if blind else engine.reference(r, p, mode)['steps']
            u = rng.random()
            if u < .2:
                k = 1 + int(n * (1 - rng.random() ** 3))     # late
            elif u < .35:
                k = 1 + int(n ** rng.random())               # early
            else:
                k = 1 + rng.randrange(max(n, 1))
            o['fault'] = [k, rng.choice(core.FAULT_KINDS)]
        return o
    threads = []
    for t in range(nthreads):
        ops = []
        for _ in range(nops):
            o = op(faults)
            ops.append(o)
            if o.get('fault') and rng.random() < .7:        # retry, or a related query
                ops.append({'i': next(ids), 'r': o['r'], 'p': o['p']})
        threads.append(ops)
    audit = []
    seen = [o for th in threads for o in th]
    for _ in range(naudit):
        if rng.random() < .5:
            o = rng.choice(seen)
            audit.append({'i': next(ids), 'r': o['r'], 'p': o['p']})
        else:
            r, n = rng.choice(focus)
            audit.append({'i': next(ids), 'r': r, 'p': engine.path_in(rng, n, 0)})
    pol = rng.choice(['walk', 'walk', 'pct', 'hold'])
    est = 200
    for th in threads:
        for o in th[:3]:
            est += 150 if mode == 'line' else 1200
    if pol == 'walk':
        p = rng.choice([.5, .1, .02, .005]) if mode == 'line' else rng.choice([.2, .03, .005, .001])
    else:
        p = rng.choice([1, 2, 3, 6])
    return {'prop': prop, 'seed': seed, 'run': i, 'mode': mode, 'npseed': rng.randrange(1 << 30), 'prebuild': rng.random() < .7,
            'threads': threads, 'audit': audit, 'sched': {'policy': pol, 'p': p, 'seed': rng.randrange(1 << 30), 'est': est}}


class MeshCheck(Check):
    real, stub = REAL, STUB
    monitor = None
    values = True

    def lazyspec(self, i, seed, tier):
        return {'prop': self.prop, 'lazy': [i, seed, tier]}

    # generation needs reference step counts, so it is done inside the worker
    def gen(self, i, seed, tier):
        return self.lazyspec(i, seed, tier)

    def materialise(self, spec):
        if 'lazy' in spec:
            i, seed, tier = spec['lazy']
            rng = random.Random('%s/%s/%s' % (self.prop, seed, i))
            return self.build(rng, i, seed, tier)
        return spec

    def execute(self, spec):
        spec = self.materialise(spec)
        r = proc.forkrun(engine.run_child, spec, self.monitor, timeout=240)
        if r[0] != 'ok':
            raise proc.HarnessError('run %s: %s' % (spec.get('run'), r))
        res = r[1]
        viol = engine.judge(spec, res, self.values)
        viol += self.more(spec, res)
        ops = engine.all_ops(spec)
        inter = hashlib.sha1(json.dumps(res['locs']).encode()).hexdigest()[:16] if res['locs'] else None
        fired = collections.Counter(f[3] for f in res['faults'])
        outcome = collections.Counter(o[2] for o in res['obs'])
        ctx = len(res['locs'])
        return {'violations': viol, 'digest': engine.logdigest(res), 'pin': res['rounds'] or (res['switches'], res['first']), 'spec': spec,
                'nontrivial': self.nontrivial(spec, res),
                'interleavings': [inter] if inter else [], 'faults': dict(fired),
                'stats': {'ops': len(res['obs']), 'simulated_events': res['steps'], 'context_switches': ctx, 'ops_value': outcome['value'],
                          'ops_reported_injection': outcome['injected'], 'ops_raised_as_alone': outcome['raise'],
                          'runs_instruction_level': int(spec['mode'] == 'instr'),
                          'aborts_that_still_returned': sum(1 for o in res['obs'] if o[5] and o[2] == 'value'), **self.stats(spec, res)},
                'sample': {'run': spec['run'], 'mode': spec['mode'], 'sched': spec.get('sched'), 'rounds': len(res['rounds']) or 1,
                           'threads': [[(o['r'], [vocab.stepname(s) for s in o['p']], o.get('fault')) for o in th] for th in (spec['rounds'][-1] if 'rounds' in spec else spec)['threads']],
                           'switches': len(res['locs']), 'faults': res['faults'][:3]}}

    def more(self, spec, res):
        return []

    def stats(self, spec, res):
        return {}

    def nontrivial(self, spec, res):
        return True

    def pin(self, spec, result):
        s = copy.deepcopy(result.get('spec') or self.materialise(spec))
        if 'rounds' in s:
            s['rounds'] = copy.deepcopy(result['pin'])
        else:
            s['sched'] = {'explicit': result['pin'][0], 'first': result['pin'][1]}
        return s

    def shrink(self, spec):
        spec = self.materialise(spec)

        def cp():
            return copy.deepcopy(spec)
        if 'rounds' in spec:
            for c in self.shrink_rounds(spec, cp):
                yield c
            return
        if 'explicit' in spec['sched'] and spec['sched']['explicit']:
            c = cp()
            c['sched']['explicit'] = []
            yield c
        if spec.get('audit'):
            c = cp()
            c['audit'] = []
            yield c
            n = len(spec['audit'])
            if n > 3:
                for h in (slice(0, n // 2), slice(n // 2, n)):
                    c = cp()
                    del c['audit'][h]
                    yield c
        for t in range(len(spec['threads'])):
            if spec['threads'][t]:
                c = cp()
                c['threads'][t] = []
                yield c
        for t in range(len(spec['threads'])):
            n = len(spec['threads'][t])
            if n > 3:
                for h in (slice(0, n // 2), slice(n // 2, n)):
                    c = cp()
                    del c['threads'][t][h]
                    yield c
        for t in range(len(spec['threads'])):
            for j in range(len(spec['threads'][t])):
                c = cp()
                del c['threads'][t][j]
                yield c
        for j in range(len(spec.get('audit') or [])):
            c = cp()
            del c['audit'][j]
            yield c
        for t in range(len(spec['threads'])):
            for j in range(len(spec['threads'][t])):
                if spec['threads'][t][j].get('fault'):
                    c = cp()
                    del c['threads'][t][j]['fault']
                    yield c
        sw = spec['sched'].get('explicit') or []
        n = len(sw)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                c = cp()
                del c['sched']['explicit'][a:a + size]
                yield c
            if n > 200 and size < n // 64:
                break
            size //= 2


    def shrink_rounds(self, spec, cp):
        if spec.get('audit'):
            c = cp()
            c['audit'] = []
            yield c
        n = len(spec['rounds'])
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                if n - len(spec['rounds'][a:a + size]) > 0:
                    c = cp()
                    del c['rounds'][a:a + size]
                    yield c
            size //= 2
        if n > 4:
            return
        for k in range(n):
            for t in range(len(spec['rounds'][k]['threads'])):
                for j in range(len(spec['rounds'][k]['threads'][t])):
                    c = cp()
                    del c['rounds'][k]['threads'][t][j]
                    yield c
            sw = spec['rounds'][k]['sched'].get('explicit') or []
            size = len(sw)
            while size >= 1:
                for a in range(0, len(sw), size):
                    c = cp()
                    del c['rounds'][k]['sched']['explicit'][a:a + size]
                    yield c
                size //= 2


def measured(a, mode):
    """two rounds by one caller that tell how many events a call takes on fresh and on used objects"""
    seq = {'explicit': [], 'first': 0}
    return [{'threads': [[a]], 'sched': seq, 'measure': 'cold'}, {'threads': [[a]], 'sched': seq, 'measure': 'warm'}]


def akin(node, step):
    """other steps of a node that call the same thing with other arguments"""
    return [s for s in (node['steps'][k] for k in node['ok']) if s[0] == step[0] and vocab.stepname(s) == vocab.stepname(step) and s != step]


def pick_kin(rng, kin, step):
    """one of the other steps, preferring other kinds of arguments to other content"""
    other = sorted({vocab.form(s) for s in kin} - {vocab.form(step)})
    if other and rng.random() < .7:
        f = rng.choice(other)
        kin = [s for s in kin if vocab.form(s) == f]
    return rng.choice(kin)


def duel(rng, i, seed, prop, families=('mesh',), j=None):
    """callers asking the same kind of question with other arguments, or of similar objects, at the same time"""
    names = engine.recipe_group(i, families)
    cat = engine.catalog()['recipes']
    ids = iter(range(10 ** 6))

    def op(r, p, private=False):
        o = {'i': next(ids), 'r': r, 'p': p}
        if private:
            o['private'] = True
        return o
    r, node = engine.pick_class(rng, names)
    p = engine.path_in(rng, node, .02)
    twin = None
    if j is not None:
        r, node, p, twin = engine.pick_stratum(rng, names, seed, j)
    for _ in range(8 if j is None and rng.random() < .5 else 0):
        if vocab.seeded(p[-1]) or akin(node, p[-1]):
            break
        p = engine.path_in(rng, node, .02)
    kin = akin(node, p[-1])
    twins = [q for q in (p[:-1] + [vocab.vary(rng, p[-1])] for _ in range(4)) if q != p]
    u = rng.random()
    if twin:
        a, b = op(r, p), op(r, p[:-1] + [twin])
    elif kin and (u < .3 or not twins and u < .7):
        a, b = op(r, p), op(r, p[:-1] + [pick_kin(rng, kin, p[-1])])
    elif twins and u < .7:
        a, b = op(r, p), op(r, twins[0])
    elif u < .8:
        a, b = op(r, p), op(r, p, True)
    elif u < .92 and engine.siblings(r):
        a, b = op(r, p), op(rng.choice(engine.siblings(r)), p)
    else:       # the same question about another object
        last = json.dumps(p[-1])
        for _ in range(20):
            r2 = rng.choice(names)
            n2 = cat[r2][0] if rng.random() < .3 else rng.choice(cat[r2])
            if any(json.dumps(n2['steps'][s]) == last for s in n2['ok']):
                break
        else:
            r2, n2 = r, node
        p2 = [n2['steps'][k] for k in n2['path']] + [p[-1]]
        a, b = op(r, p), op(r2, p2)
    mode = rng.choice(['line', 'instr'])
    rounds = measured(a, mode) + [{'threads': [[b]], 'sched': {'explicit': [], 'first': 0}}]
    for k in range(40):
        pol = rng.choice(['walk', 'pct', 'hold', 'hold', 'hold'])
        rounds.append({'threads': [[a], [b]], 'fresh': rng.choice(['auto', 'auto', 'auto', True]),
                       'sched': {'policy': pol, 'p': rng.choice([.3, .1, .03]) if pol == 'walk' else rng.choice([1, 2]), 'seed': rng.randrange(1 << 30), 'est': 'auto'}})
    return {'prop': prop, 'seed': seed, 'run': i, 'mode': mode, 'npseed': rng.randrange(1 << 30), 'prebuild': True, 'rounds': rounds,
            'budget': 60000 if mode == 'line' else 200000, 'audit': [op(o['r'], o['p']) for o in (a, b)]}


def barrage(rng, i, seed, prop, families=('mesh',), j=None):
    """one call cut short at many places in turn, on fresh and on used objects, then repeated, and followed by other questions"""
    names = engine.recipe_group(i, families)
    ids = iter(range(10 ** 6))
    r, node = engine.pick_class(rng, names)
    p = engine.path_in(rng, node, .02)
    twin = None
    if j is not None:
        r, node, p, twin = engine.pick_stratum(rng, names, seed, j)
    a = {'i': next(ids), 'r': r, 'p': p}
    rel = [{'i': next(ids), 'r': r, 'p': engine.path_in(rng, node, 0)} for _ in range(3)]
    if p[-1][0] in ('attr', 'call') and p[-1] in engine.derivations() and rng.random() < .7:      # what is derived is asked something too
        q = [n for n in engine.catalog()['recipes'][r] if [n['steps'][k] for k in n['path']] == p]
        rel += [{'i': next(ids), 'r': r, 'p': engine.path_in(rng, q[0], 0)} for _ in range(2) if q]
    kin = akin(node, p[-1])
    if kin:         # the same question with other arguments
        rel.append({'i': next(ids), 'r': r, 'p': p[:-1] + [twin or pick_kin(rng, kin, p[-1])]})
    if vocab.seeded(p[-1]):
        rel.append({'i': next(ids), 'r': r, 'p': p[:-1] + [vocab.vary(rng, p[-1])]})
    mode = rng.choice(['line', 'instr'])
    rounds = measured(a, mode)
    seq = {'explicit': [], 'first': 0}
    for k in range(40):
        u = rng.random()
        x = rng.random()
        at = 1 - x ** 3 if u < .25 else x ** 3 if u < .4 else x
        th = [dict(a, fault=[at, rng.choice(core.FAULT_KINDS)])]
        if rng.random() < .2:
            th.append(dict(a, fault=[rng.random(), rng.choice(core.FAULT_KINDS)]))
        th += rng.choice([[a], [a], [rng.choice(rel), a], [rng.choice(rel), rng.choice(rel)], [a, rng.choice(rel)]])
        ths, sched = [th], seq
        if rng.random() < .12:      # somebody else asks meanwhile
            ths = [th, [rng.choice([a] + rel)]]
            sched = {'policy': rng.choice(['pct', 'hold', 'hold']), 'p': rng.choice([1, 2]), 'seed': rng.randrange(1 << 30), 'est': 'auto'}
        rounds.append({'threads': ths, 'fresh': rng.choice(['auto', 'auto', True, True]), 'fault': 'auto', 'sched': sched})
    return {'prop': prop, 'seed': seed, 'run': i, 'mode': mode, 'npseed': rng.randrange(1 << 30), 'prebuild': True, 'rounds': rounds,
            'budget': 60000 if mode == 'line' else 250000, 'audit': [a] + rel}


class C01(MeshCheck):
    prop = 'C01'
    rule = ('one run = 2-4 caller threads with 2-7 seeded queries/derivations each over 1-3 shared meshes (59 recipes, 2832 derived nodes, '
            '135k query paths), preempted at line or instruction events by a seeded policy (random walk, priority change points, parking a thread '
            'until the others are through), then an audit by one caller; non-trivial = at least one preemption inside a library call and no two '
            'runs with the same event log')
    assumptions = ['preemption happens between Python bytecodes of library code; C extensions and third-party Python code run atomically',
                   'reference = the same call evaluated alone, fault free, on a freshly built mesh in a fresh process of the same tree']

    def runs(self, tier):
        return 2000 if tier == 'quick' else 60000

    def build(self, rng, i, seed, tier):
        if i // 8 % 2 or rng.random() < .3:
            return duel(rng, i, seed, self.prop, j=i // 16 if i // 8 % 2 else None)
        n = rng.choice([2, 2, 3, 4])
        return mkspec(rng, i, seed, self.prop, n, rng.choice([2, 3, 5, 7] if n < 4 else [2, 3]), 4, 0, rng.choice(['line', 'line', 'instr']))

    def nontrivial(self, spec, res):
        return bool(res['locs'])


class C02(MeshCheck):
    prop = 'C02'
    rule = ('one run = 1-3 callers with seeded queries/derivations over shared meshes; calls are cut short at a seeded event (line or instruction '
            'of library code, early/late/uniform) by one of ten exception kinds, most are retried, and an audit by one caller follows; '
            'non-trivial = at least one fault fired inside a library call')
    assumptions = ['a call is cut short by an exception raised before a bytecode of library code; not inside C routines',
                   'lines on which Python cannot make cleanup safe (with/try headers, finally bodies) are not cut']

    def runs(self, tier):
        return 2400 if tier == 'quick' else 80000

    def build(self, rng, i, seed, tier):
        if i // 8 % 2 or rng.random() < .3:
            return barrage(rng, i, seed, self.prop, j=i // 16 if i // 8 % 2 else None)
        n = rng.choice([1, 1, 2, 3])
        return mkspec(rng, i, seed, self.prop, n, rng.choice([2, 4, 6]), 10, .5, rng.choice(['line', 'instr']), private=.03)

    def nontrivial(self, spec, res):
        return bool(res['faults'])
