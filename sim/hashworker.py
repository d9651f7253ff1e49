"""evaluates questions in an interpreter of its own (its hash seed is the point)"""
import json
import pickle
import sys
import env
env.setup()
import canon
import engine
import proc


def chunk(qs):
    out = []
    for r, p in qs:
        try:
            out.append(('value', canon.canon(engine._eval_path(r, p))))
        except Exception as e:
            out.append(('raise', type(e).__name__))
    return out


qs = json.load(sys.stdin)
out = []
for i in range(0, len(qs), 40):
    v = proc.forkrun(chunk, qs[i:i + 40], timeout=300)
    if v[0] != 'ok':
        raise SystemExit(str(v))
    out += v[1]
pickle.dump(out, open(sys.argv[1], 'wb'))
