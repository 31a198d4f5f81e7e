"""Exhaustive-exploration engine shared by all checks.

A check module provides
    PROPERTY, TITLE
    cases(tier)    deterministic iterator over literal (ast.literal_eval-able)
                   cases: each one is a model state or a complete history
    run(case, rec) execute the case on the real library, compare every
                   observation with the reference model; raise Violation (or
                   let an unexpected exception of the library propagate)
The engine enumerates every case (no sampling, no cap), spreads them over
worker processes, counts what was covered, records violations as replayable
files.
"""
import ast
import hashlib
import json
import multiprocessing
import os
import signal
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 120
MAX_REPORT = 5


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want or type(got) is bool and type(want) is not bool:
        raise Violation('%s: got %s, the model says %s'
                        % (what, short(got), short(want)))


def short(v, n=400):
    s = v.hex() if isinstance(v, (bytes, bytearray)) else repr(v)
    return s if len(s) <= n else '%s... (%d chars)' % (s[:n], len(s))


def raises(what, fn, *a, exc=(Exception,), **kw):
    """fn must raise one of exc; returns the exception"""
    try:
        r = fn(*a, **kw)
    except exc as e:
        return e
    raise Violation('%s: expected %s, but the call returned %s'
                    % (what, '/'.join(e.__name__ for e in exc), short(r)))


class Recorder:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.counters = {}
        self.samples = []
        self.findings = []

    def state(self, key):
        if not isinstance(key, bytes):
            key = repr(key).encode()
        h = hashlib.blake2b(key, digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def finding(self, key, text):
        """A violation that is identified by key, see known_findings.txt"""
        self.findings.append((key, text))

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.findings += o.findings


def known_findings(prop):
    """key -> text. Line format: known: property=<id> key=<key> <text>"""
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2].strip()
                assert rest.startswith('key='), line
                key, text = rest[4:].split(' ', 1)
                out[key] = text
    return out


def _alarm(signum, frame):
    raise CaseTimeout('case did not finish within %d s' % CASE_TIMEOUT)


def run_one(mod, case, rec):
    """None if the case holds, else a message"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.run(case, rec)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout as e:
        return str(e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(t.filename), t.lineno)
                            for t in reversed(tb[-4:]))
        return 'unexpected %s: %s [%s]' % (type(e).__name__, short(str(e)), where)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _worker(mod, tier, chunk_size, counter, stop, current, slot, conn):
    """Claims chunks of the (deterministic) case sequence and runs them"""
    rec = Recorder()
    bad = []
    n = 0
    claimed = -1
    try:
        for i, case in enumerate(mod.cases(tier)):
            chunk = i // chunk_size
            while claimed < chunk:
                with counter.get_lock():
                    claimed = counter.value
                    counter.value += 1
            if claimed != chunk:
                continue
            if stop.value:
                break
            current[slot] = i
            n += 1
            msg = run_one(mod, case, rec)
            if msg is not None:
                bad.append((i, case, msg))
                if len(bad) >= MAX_REPORT:
                    stop.value = 1
                    break
        conn.send((rec, bad, n))
    except BaseException:
        conn.send(traceback.format_exc())
    conn.close()


def _run_parallel(mod, tier, chunk_size, jobs):
    mp = multiprocessing.get_context('fork')
    counter = mp.Value('q', 0)
    stop = mp.Value('b', 0, lock=False)
    current = mp.Array('q', [-1] * jobs, lock=False)
    procs = []
    for slot in range(jobs):
        r, w = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(mod, tier, chunk_size, counter, stop,
                                             current, slot, w))
        p.start()
        w.close()
        procs.append((p, r))
    total = Recorder()
    bad = []
    ncases = 0
    for slot, (p, r) in enumerate(procs):
        try:
            got = r.recv()
        except EOFError:
            got = None
        p.join()
        if got is None:
            # the process running the library died (signal): that is an
            # observation about the case that it was executing
            idx = current[slot]
            case = next((c for i, c in enumerate(mod.cases(tier)) if i == idx), None)
            bad.append((idx, case, 'the process executing this case died, exit code %s'
                        % p.exitcode))
            stop.value = 1
        elif isinstance(got, str):
            raise RuntimeError('error of the check itself:\n' + got)
        else:
            rec, b, n = got
            total.merge(rec)
            bad += b
            ncases += n
    return total, bad, ncases


def explore(mod, tier, seed):
    t0 = time.time()
    if hasattr(mod, 'prepare'):
        try:
            mod.prepare(tier)
        except Exception as e:
            if not isinstance(e, Violation) and not from_library(e):
                raise
            return broken_setup(mod.PROPERTY, traceback.format_exc())
    chunk_size = getattr(mod, 'CHUNK', 16)
    jobs = getattr(mod, 'JOBS', min(8, os.cpu_count() or 1))
    samples = []
    for i, c in enumerate(mod.cases(tier)):
        if i in (0, 1, 10, 100, 1000):
            samples.append(short(c, 600))
        if i >= 1000:
            break
    total, bad, ncases = _run_parallel(mod, tier, chunk_size, jobs)
    bad.sort(key=lambda x: x[0])
    if hasattr(mod, 'finish'):
        mod.finish(tier, total)

    rc = 0
    known = known_findings(mod.PROPERTY)
    printed = set()
    for key, text in total.findings:
        if key in printed:
            continue
        printed.add(key)
        if key in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (mod.PROPERTY, key, known[key]))
        else:
            bad.append((-1, ('finding', key), text))

    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for n, (idx, case, msg) in enumerate(bad[:MAX_REPORT]):
        path = os.path.join(rdir, '%s-%d.case' % (mod.PROPERTY, n))
        with open(path, 'w') as f:
            f.write(repr({'property': mod.PROPERTY, 'message': msg, 'case': case}) + '\n')
        print('  case %d: %s' % (idx, msg))
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        rc = 1

    coverage = {
        'states': len(total.states),
        'transitions': total.transitions,
        'traces_validated_against_impl': total.traces,
        'samples': samples or ['(no cases)'],
        'cases_enumerated': ncases,
        'exhaustive': rc == 0,
        'bound': mod.bound(tier) if hasattr(mod, 'bound') else '',
    }
    if total.counters:
        coverage['counters'] = dict(sorted(total.counters.items()))
    ev = {
        'property': mod.PROPERTY,
        'tier': tier,
        'seed': seed,
        'level': 'model_checking',
        'coverage': coverage,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    with open(os.path.join(VERIF, 'evidence', mod.PROPERTY + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: cases=%d states=%d transitions=%d traces=%d violations=%d %.1fs'
          % (mod.PROPERTY, tier, ncases, len(total.states), total.transitions,
             total.traces, len(bad), time.time() - t0))
    return rc


def from_library(e):
    """did the library under test raise this?"""
    repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + '/'
    return any(os.path.realpath(t.filename).startswith(repo)
               for t in traceback.extract_tb(e.__traceback__))


def broken_setup(prop, text):
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, prop + '-setup.txt')
    with open(path, 'w') as f:
        f.write(text)
    print(text)
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def replay(mod, path):
    with open(path) as f:
        d = ast.literal_eval(f.read())
    if hasattr(mod, 'prepare'):
        mod.prepare('quick')
    msgs = []
    for _ in range(2):
        rec = Recorder()
        msg = run_one(mod, d['case'], rec)
        if msg is None:
            known = known_findings(mod.PROPERTY)
            for k, t in rec.findings:
                if k not in known:
                    msg = t
        msgs.append(msg)
    print('recorded: %s' % d['message'])
    print('replayed: %s' % msgs[0])
    if msgs[0] != msgs[1]:
        print('note: a second replay in the same process differs: %s' % msgs[1])
    if msgs[0] is not None:
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        return 1
    return 0


def bfs(bases, succ, depth):
    """All distinct states reachable from bases by at most depth deviations,
    fewest deviations first. Yields (state, depth)."""
    seen = set()
    frontier = []
    for b in bases:
        if b not in seen:
            seen.add(b)
            frontier.append(b)
            yield b, 0
    for d in range(1, depth + 1):
        nxt = []
        for s in frontier:
            for t in succ(s):
                if t not in seen:
                    seen.add(t)
                    nxt.append(t)
                    yield t, d
        frontier = nxt
