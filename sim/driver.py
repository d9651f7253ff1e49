"""Runs a check: many seeded simulated executions, evidence, minimisation, replay files, known findings."""
import copy
import json
import os
import re
import sys
import time
import traceback

import core
import proc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or max(1, min(8, len(os.sched_getaffinity(0))))


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'open']


def match_known(v, known):
    for k in known:
        if all(v.get(a) == b for a, b in k['match'].items()):
            return k
    return None


class Check(object):
    """subclass: prop, technique fields, gen(i, seed, tier) -> spec, execute(spec) -> result dict with keys
    violations (list of dict kind/step/detail), stats (dict of counters), digest, sample"""
    prop = None
    level = 'exploration'
    rule = ''
    assumptions = []
    real = []
    stub = []

    def runs(self, tier):
        raise NotImplementedError

    def gen(self, i, seed, tier):
        raise NotImplementedError

    def execute(self, spec):
        raise NotImplementedError

    def pin(self, spec, result):
        """make the spec explicit (recorded schedule) so that it can be minimised"""
        return spec

    def shrink(self, spec):
        """yield smaller candidate specs"""
        return iter(())

    def extra(self, tier, seed):
        """additional deterministic evidence/violations computed once per invocation"""
        return {}, []


def crashed(check, spec, text):
    """an error that leaves library code where the harness expects none is an observation, not a harness failure"""
    text = text.replace('\\n', '\n')
    frames = [f for f in re.findall(r'File "([^"]+)"', text) if f.startswith(os.path.join(VERIF, 'sim') + os.sep) or f.startswith(core.PKG)]
    if not frames or not frames[-1].startswith(core.PKG):
        return {'harness': text}
    last = text.rstrip().rstrip("')").rstrip().split('\n')[-1][:200]
    return {'violations': [{'kind': 'crash', 'step': os.path.basename(frames[-1]), 'detail': 'library code fails where it must not: %s in %s' % (last, frames[-1])}],
            'digest': 'crash', 'pin': ([], 0), 'spec': spec, 'nontrivial': False, 'interleavings': [], 'faults': {}, 'stats': {'crashes': 1}, 'sample': None, 'crash': True, 'text': text}


def safe_execute(check, spec):
    try:
        return check.execute(spec)
    except proc.HarnessError as e:
        return crashed(check, spec, str(e))
    except Exception:
        return crashed(check, spec, traceback.format_exc())


def same(v, kind, step=None):
    return v['kind'] == kind and (step is None or v.get('step') == step)


def minimise(check, spec, viol, budget):
    """greedy: keep applying the first smaller candidate that still shows a violation of the same kind"""
    t0 = time.monotonic()
    best = spec
    tried = 0
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for cand in check.shrink(best):
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            r = safe_execute(check, cand)
            if r.get('harness'):
                continue
            vs = [v for v in r['violations'] if same(v, viol['kind'])]
            if vs:
                best = check.pin(cand, r) if cand.get('_repin') else cand
                viol = vs[0]
                progress = True
                break
    return best, viol, tried


def write_replay(check, spec, viol, seed, tier, extra):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%s.json' % (check.prop, tier, seed))
    json.dump({'property': check.prop, 'verif_seed': seed, 'tier': tier, 'violation': viol, 'spec': spec, **extra}, open(p, 'w'), indent=1, default=str)
    return p


def replay(check, path):
    d = json.load(open(path))
    r = safe_execute(check, d['spec'])
    if r.get('harness'):
        print(r['harness'])
        return 2
    vs = [v for v in r['violations'] if v['kind'] == d['violation']['kind']]
    for v in vs[:3]:
        print('reproduced: %s' % v['detail'])
    if vs:
        print('VIOLATION property=%s replay=%s' % (check.prop, path))
        return 1
    print('not reproduced; violations seen: %s' % r['violations'])
    return 0


def main(check, tier, seed):
    t0 = time.monotonic()
    n = check.runs(tier)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    n = max(1, int(n * scale))
    known = known_findings(check.prop)
    specs = [check.gen(i, seed, tier) for i in range(n)]
    agg = {}
    faults = {}
    digests = set()
    nontrivial = set()
    interleavings = set()
    samples = []
    found = []
    knownhits = {}
    harness = []
    done = cut = 0
    deadline = t0 + float(os.environ.get('VERIF_DEADLINE', '600' if tier == 'quick' else '86000'))
    state = {'stop': False}

    def job(spec):
        return safe_execute(check, spec)
    for i, (st, r) in proc.pmap(job, specs, WORKERS, stop=lambda: state['stop']):
        done += 1
        if st != 'ok' or r.get('harness'):
            harness.append((i, r if st != 'ok' else r['harness']))
            if len(harness) > 5:
                break
            continue
        for k, v in r['stats'].items():
            agg[k] = agg.get(k, 0) + v
        for k, v in r.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + v
        if r.get('nontrivial'):
            nontrivial.add(r['digest'])
        digests.add(r['digest'])
        for h in r.get('interleavings', ()):
            interleavings.add(h)
        if len(samples) < 3 and r.get('sample') and i % 7 == 0:
            samples.append(r['sample'])
        for v in r['violations']:
            k = match_known(v, known)
            if k:
                knownhits[k['id']] = knownhits.get(k['id'], 0) + 1
            else:
                found.append((i, v))
        if found and (len(found) > 20 or time.monotonic() - t0 > 300):
            state['stop'] = True
        if time.monotonic() > deadline:
            cut = n - done
            break
    ex_cov, ex_viol = ({}, []) if found or harness or cut else check.extra(tier, seed)
    wall = time.monotonic() - t0
    rc = 0
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (check.prop, k['what']))
    if found:
        found.sort(key=lambda x: x[0])
        i, v = found[0]
        r = safe_execute(check, specs[i])
        spec = check.pin(specs[i], r) if not r.get('harness') and not r.get('crash') else specs[i]
        r2 = safe_execute(check, spec)
        note = 'minimised'
        if not r2.get('harness') and any(same(x, v['kind']) for x in r2['violations']):
            spec, v, tried = minimise(check, spec, [x for x in r2['violations'] if same(x, v['kind'])][0],
                                      float(os.environ.get('VERIF_MINIMISE', '60')))
        else:
            note = 'pinned run did not repeat the violation; original spec kept'
            spec = specs[i]
        p = write_replay(check, spec, v, seed, tier, {'note': note, 'run': i})
        print('violation of %s in run %d (seed %s): %s' % (check.prop, i, seed, v['detail']))
        print('%d violating observations in %d runs' % (len(found), done))
        print('VIOLATION property=%s replay=%s' % (check.prop, p))
        rc = 1
    elif ex_viol:
        v = ex_viol[0]
        p = write_replay(check, v.get('spec', {}), v, seed, tier, {'note': 'extra'})
        print('violation of %s: %s' % (check.prop, v['detail']))
        print('VIOLATION property=%s replay=%s' % (check.prop, p))
        rc = 1
    elif harness:
        print('HARNESS ERROR in %d runs; first: run %d\n%s' % (len(harness), harness[0][0], harness[0][1]))
        rc = 2
    hours = wall / 3600
    cov = {'evaluations': done, 'distinct_nontrivial': len(nontrivial), 'rule': check.rule, 'samples': samples or ['none'],
           'distinct_runs': len(digests), 'distinct_interleavings': len(interleavings), 'faults_injected': faults,
           'runs_per_hour': int(done / hours) if hours else 0, 'seeds_per_hour': int(done / hours) if hours else 0,
           'real_code': check.real, 'stubbed': check.stub, 'known_finding_hits': knownhits, 'harness_errors': len(harness),
           'workers': WORKERS, 'runs_left_out_for_lack_of_time': cut}
    cov.update(agg)
    cov.update(ex_cov)
    ev = {'property': check.prop, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': cov, 'wall_s': round(wall, 2),
          'violations': len(found) + len(ex_viol), 'assumptions': check.assumptions}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', check.prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d runs, %d distinct non-trivial, faults %s, %.1fs, exit %d' % (check.prop, tier, done, len(nontrivial), faults, wall, rc))
    return rc
