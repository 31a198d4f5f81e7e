"""Controlled scheduler: runs two threads of real library code one at a time and
switches between them at chosen source lines (or bytecodes) of the library.

A schedule is (first thread, preemption points): the running thread is
suspended when the number of scheduling points that both threads have passed
together reaches a preemption point. A thread that ends hands over to the other
one. Enumerating all preemption points, up to a number of preemptions, covers
every interleaving of that kind.

A thread that makes no progress while the other one is suspended waits for it
(for a lock, say): both are then left to run.
"""
import os
import sys
import threading

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + '/elementstx/'
STALL = 0.25


M = sys.monitoring
TOOL = 4
_state = {'threads': {}, 'mode': None, 'lib': {}}


def _is_lib(code):
    lib = _state['lib']
    r = lib.get(code.co_filename)
    if r is None:
        r = lib[code.co_filename] = os.path.realpath(code.co_filename).startswith(_state['mode'][0])
    return r


def _event(code, where):
    """a thread is about to execute a line (bytecode) of some Python code"""
    if not _is_lib(code):
        return M.DISABLE
    x = _state['threads'].get(threading.get_ident())
    if x is not None:
        run, t = x
        if run.last is None:
            run.locations.append((code.co_filename, code.co_firstlineno, where))
            run.point(t)
        elif run.points < run.last:
            run.point(t)


def monitor(prefixes, opcodes):
    mode = (prefixes, opcodes)
    if _state['mode'] == mode:
        return
    if _state['mode'] is None:
        M.use_tool_id(TOOL, 'schedules')
    _state['mode'] = mode
    _state['lib'] = {}
    M.register_callback(TOOL, M.events.LINE, None if opcodes else _event)
    M.register_callback(TOOL, M.events.INSTRUCTION, _event if opcodes else None)
    M.set_events(TOOL, M.events.INSTRUCTION if opcodes else M.events.LINE)
    M.restart_events()


class Run:
    def __init__(self, bodies, first=0, preempt=(), prefixes=(REPO,), opcodes=False):
        self.bodies = bodies
        self.preempt = frozenset(preempt)
        self.prefixes = prefixes
        self.opcodes = opcodes
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.finished = [False] * len(bodies)
        self.results = [None] * len(bodies)
        self.current = first
        self.points = 0
        self.last = max(self.preempt) if self.preempt else None     # no need to look after that
        self.locations = []         # of the scheduling points, without preemptions
        self.trail = []             # length of the run up to each hand-over
        self.free = False           # no longer under control
        self.stalled = False
        self.all_done = threading.Event()

    def point(self, t):
        self.points += 1
        if self.free or self.points not in self.preempt:
            return
        o = 1 - t
        if self.finished[o]:
            return
        self.trail.append(self.points)
        self.current = o
        self.sem[o].release()
        self.sem[t].acquire()

    def thread(self, t):
        threads = _state['threads']
        me = threading.get_ident()
        self.sem[t].acquire()
        threads[me] = (self, t)
        try:
            self.results[t] = ('ok', self.bodies[t]())
        except BaseException as e:
            threads.pop(me, None)
            self.results[t] = ('exception', type(e).__name__, str(e)[:300])
        threads.pop(me, None)
        self.finished[t] = True
        o = 1 - t
        if self.finished[o]:
            self.all_done.set()
        else:
            self.current = o
            self.sem[o].release()

    def go(self, limit=60):
        monitor(self.prefixes, self.opcodes)
        ts = [threading.Thread(target=self.thread, args=(t,), daemon=True) for t in (0, 1)]
        for t in ts:
            t.start()
        self.sem[self.current].release()
        waited = 0
        while not self.all_done.is_set():
            before = self.points, self.current, tuple(self.finished)
            if self.all_done.wait(STALL):
                break
            waited += STALL
            if (self.points, self.current, tuple(self.finished)) == before and not self.free:
                # the running thread waits for the suspended one
                self.stalled = self.free = True
                for s in self.sem:
                    s.release()
            if waited > limit:
                return False
        for t in ts:
            t.join()
        return True


def forked(fn):
    """fn() in a forked child: ('ok', value), ('died', status) ..."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException as e:
                import traceback
                out = ('raised', '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-300:]))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        return ('died', 'signal %d' % os.WTERMSIG(status) if os.WIFSIGNALED(status)
                else 'status %d' % status)
    return pickle.loads(data)


def selected(locations, occurrences):
    """The points (from 1) that are among the first so many, or the last, passages
    of their location"""
    seen, last = {}, {}
    out = []
    for i, loc in enumerate(locations, 1):
        seen[loc] = seen.get(loc, 0) + 1
        last[loc] = i
        if seen[loc] <= occurrences:
            out.append(i)
    return sorted(set(out) | set(last.values()))
