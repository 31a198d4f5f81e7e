"""python3 tools/histories.py TIER OUT.json: every history of C29 that violates the property on VERIF_REPO, with the
participant that loses. Not used by any check; known_histories.json was made from its output."""
import json, multiprocessing, os, sys
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
from mc.checks import c29
from mc.engine import Violation


class Rec:
    def __getattr__(self, n):
        return lambda *a: None


def one(c):
    try:
        c29.run(c, Rec())
    except Violation as e:
        return c29.history(c), str(e)


if __name__ == '__main__':
    c29.KNOWN.clear()
    c29.prepare(sys.argv[1])
    cs = list(c29.cases(sys.argv[1]))
    if len(sys.argv) > 3:
        only = set(json.load(open(sys.argv[3])))
        cs = [c for c in cs if c29.history(c) in only]
    with multiprocessing.Pool(8) as pool:
        out = dict(r for r in pool.imap_unordered(one, cs, 4) if r)
    json.dump(out, open(sys.argv[2], 'w'), indent=0, sort_keys=True)
    print(len(cs), len(out))
