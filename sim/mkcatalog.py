"""Build catalog.json: which derivation paths and queries exist (run by hand on a healthy tree, result committed).
usage: mkcatalog.py mesh|st."""
import json
import random
import sys
import time
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env
env.setup()
import vocab
import canon


def one(name):
    rng = random.Random('1/' + name)

    def ev(r, p):
        x = vocab.recipes()[r]()
        for s in p:
            x = vocab.apply_step(x, s, ev)
        return x
    nodes = []
    frontier = [[]]
    seen = set()
    big = name in vocab.BIG
    while frontier and len(nodes) < (8 if big else 48):
        # breadth first, random within a depth
        d = min(len(p) for p in frontier)
        cand = [p for p in frontier if len(p) == d]
        p = cand[rng.randrange(len(cand))]
        frontier.remove(p)
        try:
            t0 = time.time()
            o = ev(name, p)
            if o is None:
                continue
            dt = time.time() - t0
            top = getattr(o, 'topology', o)
            size = sum(top.n_elements) if vocab.family(name) == 'mesh' else len(json.dumps(p))
        except Exception:
            continue
        if dt > (1.5 if big else .6) or size > (6000 if big else 900):
            continue
        D, Q = vocab.candidates(o, name)
        key = (type(o).__name__, size, json.dumps(p[-1:]) if len(p) > 1 else json.dumps(p))
        if key in seen:
            continue
        seen.add(key)
        ok, bad, der = [], [], []
        for s in D + Q:
            try:
                x = ev(name, p)
                t0 = time.time()
                v = vocab.apply_step(x, s, ev)
                canon.digest(canon.canon(v))
                if time.time() - t0 > (.8 if big else .6):
                    continue
                ok.append(s)
                if s in D:
                    der.append(s)
            except Exception as e:
                if type(e).__name__ not in ('AttributeError', 'TypeError', 'NotImplementedError'):
                    bad.append(s)
        if not ok:
            continue
        nodes.append({'path': p, 'type': type(o).__name__, 'size': size, 'ok': ok, 'raises': bad})
        if len(p) < (1 if big else 3):
            frontier += [p + [s] for s in der]
    return nodes


def main():
    import multiprocessing
    steps, index = [], {}

    def sid(s):
        k = json.dumps(s)
        if k not in index:
            index[k] = len(steps)
            steps.append(s)
        return index[k]
    names = [k for k in vocab.recipes() if (vocab.family(k) == 'mesh') == (sys.argv[1] == 'mesh')]
    out = {}
    with multiprocessing.Pool(8) as pool:
        for name, nodes in zip(names, pool.imap(one, names, 1)):
            out[name] = [{**n, 'path': [sid(s) for s in n['path']], 'ok': [sid(s) for s in n['ok']], 'raises': [sid(s) for s in n['raises']]} for n in nodes]
            print(name, len(nodes), sum(len(n['ok']) for n in nodes), max([len(n['path']) for n in nodes] or [0]), flush=True)
    json.dump({'steps': steps, 'recipes': out}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'catalog.json' if sys.argv[1] == 'mesh' else 'catalog_st.json'), 'w'), separators=(',', ':'))


if __name__ == '__main__':
    main()
