"""C16: the worker pool returns every submitted task result exactly once.

Pools are driven through exhaustive small schedules and random long ones.  Every task writes to an event log when it
starts and what it is about to give; an offline checker compares submissions, executions and collected results."""
import collections
import contextlib
import io
import itertools
import os
import pickle
import signal
import subprocess
import sys
import time
import multiprocessing
import gc
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vpm import harness

LIMIT = 60


class Blocked(BaseException):
    pass


@contextlib.contextmanager
def watchdog(seconds=LIMIT):
    def late(*a):
        raise Blocked()
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class TwoArguments(Exception):
    """pickles, but can not be rebuilt"""
    def __init__(self, a, b):
        super(TwoArguments, self).__init__('%s %s' % (a, b))


class Unsendable(object):
    def __reduce__(self):
        raise ValueError('not to be sent')


class Unreceivable(object):
    def __reduce__(self):
        return (int, ('not a number',))


class OwnError(Exception):
    pass


def ln_pdf(seed):
    from MTfit.probability import LnPDF
    r = np.random.RandomState(seed)
    shape = [(1, 1), (1, 7), (3, 4), (1, 3000), (5, 1)][r.randint(5)]
    v = r.normal(size=shape)*10**r.uniform(-5, 3)
    v[r.rand(*shape) < .2] = -np.inf
    dv = [1, 1., 3, float(10**r.uniform(-12, 6)), np.float64(r.rand()+1e-3)][r.randint(5)]
    return LnPDF(v, dV=dv)


SIZES = [0, 1, 100, 4000, 65535, 65536, 65537, 300000]


def value(kind, uid, seed):
    """what a task gives, made again by the checker"""
    r = np.random.RandomState(seed)
    if kind == 'payload':
        return {'uid': uid, 'data': r.bytes(SIZES[r.randint(len(SIZES))])}
    if kind == 'array':
        return [uid, r.normal(size=(6, int(10**r.uniform(0, 4))))]
    if kind == 'number':
        return 1000+uid
    if kind == 'odd':
        return [None, False, True, 0, 10., np.float64(20), '10', [10], (20,), {}, [], '', 11, -10, {'a': 10}, np.int64(10), 100][seed % 17]
    if kind == 'returned_exception':
        return ValueError('returned %d' % uid)
    if kind == 'ln_pdf':
        L = ln_pdf
        return [lambda: {'uid': uid, 'ln_pdf': L(seed), 'n': 3}, lambda: {'uid': uid, 'moment_tensors': r.normal(size=(6, 4)), 'ln_pdf': L(seed), 'scale_factor': [1, {'mu': L(seed+1)}]},
                lambda: {'uid': uid, 'algorithm_output_data': {'ln_pdf': L(seed), 'probability': L(seed+1)}}, lambda: L(seed), lambda: [uid, L(seed), [L(seed+1)]],
                lambda: (uid, L(seed)), lambda: {'uid': uid, 'deep': {'er': [{'x': L(seed)}, {'y': {'z': L(seed+2)}}]}}, lambda: {'p': L(seed), 'q': L(seed+1)}][seed % 8]()
    if kind == 'code':
        return [10, 20][seed % 2]
    if kind == 'unsendable':
        return {'uid': uid, 'x': Unsendable()}
    if kind == 'unreceivable':
        return {'uid': uid, 'x': Unreceivable()}
    raise KeyError(kind)


RAISED = [lambda u: ValueError('raised %d' % u), lambda u: TypeError(u, 'two'), lambda u: OSError(2, 'no file %d' % u), lambda u: KeyError(u), lambda u: OwnError(u), lambda u: MemoryError(str(u)),
          lambda u: StopIteration(u), lambda u: SystemExit(u), lambda u: ZeroDivisionError(), lambda u: UnicodeDecodeError('ascii', b'%d' % u, 0, 1, 'r'), lambda u: AssertionError(u),
          lambda u: np.linalg.LinAlgError('%d' % u), lambda u: RuntimeError({'uid': u}), lambda u: EOFError(u), lambda u: TimeoutError(u), lambda u: multiprocessing.queues.Empty(u)]
ANY = [lambda u: TwoArguments(u, 1), lambda u: ValueError(Unsendable()), lambda u: ValueError(lambda: 1)]


class Task(object):
    def __init__(self, log, uid, kind, seed, delay):
        self.log, self.uid, self.kind, self.seed, self.delay = log, uid, kind, seed, delay

    def __call__(self):
        with open(self.log, 'ab', 0) as f:
            f.write(b'%d %d\n' % (self.uid, os.getpid()))
        if self.delay:
            time.sleep(self.delay)
        if self.kind == 'raise':
            raise RAISED[self.seed % len(RAISED)](self.uid)
        if self.kind == 'raise_any':
            raise ANY[self.seed % len(ANY)](self.uid)
        return value(self.kind, self.uid, self.seed)


class Default(Task):
    pass


def canon(x):
    """a text that is equal for equal results only"""
    from MTfit.probability import LnPDF
    if isinstance(x, LnPDF):
        a = np.asarray(x._ln_pdf)
        return 'LnPDF(%r,%r,%r,%r)' % (a.shape, a.dtype.str, a.tobytes(), float(x.dV))
    if isinstance(x, np.ndarray):
        return 'array(%r,%r,%r)' % (x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, dict):
        return '{%s}' % ','.join(sorted('%r:%s' % (k, canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return '%s(%s)' % (type(x).__name__, ','.join(canon(v) for v in x))
    if isinstance(x, BaseException):
        return '%s%r%s' % (type(x).__name__, getattr(x, 'args', None), getattr(x, 'errno', ''))
    return '%s:%r' % (type(x).__name__, x)


def is_code(x):
    return type(x) is int and x in (10, 20)


class Trace(object):
    """one pool and the checker of what it is seen to do"""
    def __init__(self, mon, workers, tag, det):
        from MTfit.utilities.multiprocessing_helper import JobPool
        self.mon, self.det = mon, det
        self.log = os.path.join(os.environ.get('VPM_WORK', '/tmp'), 'log_%s' % tag)
        open(self.log, 'wb').close()
        self.pool = JobPool(workers, task=Default)
        self.workers = workers
        self.uid = 0
        self.kinds = {}
        self.submitted, self.got = [], []
        self.order = []
        self.ops = []

    def want(self, kind, uid, seed):
        if kind == 'raise':
            return canon(RAISED[seed % len(RAISED)](uid))
        if kind in ('raise_any', 'unsendable', 'unreceivable'):
            return 'any exception'
        return canon(value(kind, uid, seed))

    def submit(self, kind, seed, delay, custom=False):
        args = (self.log, self.uid, kind, seed, delay)
        self.kinds[self.uid] = kind
        self.submitted.append((self.uid, kind, self.want(kind, self.uid, seed)))
        self.ops.append('S:%s' % kind)
        if custom:
            self.pool.custom_task(Task, *args)
        else:
            self.pool.task(*args)
        self.uid += 1

    def outstanding(self):
        """(all, not counting status codes)"""
        sent = [k for _, k, _ in self.submitted]
        codes = sent.count('code')
        got_codes = sum(g == 'code' for g in self.got)
        return len(sent)-len(self.got), len(sent)-codes-(len(self.got)-got_codes)

    def take(self, x):
        self.got.append('code' if is_code(x) else canon(x))
        if isinstance(x, BaseException):
            self.got[-1] = (self.got[-1],)

    def result(self):
        self.ops.append('R')
        x = self.pool.result()
        self.mon.check(not is_code(x), 'status_codes_are_skipped', got=repr(x), ops=self.ops[-60:], **self.det)
        self.take(x)

    def all(self):
        self.ops.append('A')
        xs = self.pool.all_results()
        self.mon.check(isinstance(xs, list), 'all_results_is_a_list', got=repr(xs)[:100], **self.det)
        for x in xs:
            self.take(x)
        self.compare('collecting_all_gives_precisely_the_outstanding')

    def compare(self, rule):
        want = collections.Counter(w for _, k, w in self.submitted if k != 'code')
        got = collections.Counter(g if isinstance(g, str) else g[0] for g in self.got if g != 'code')
        exceptions = collections.Counter(g[0] for g in self.got if not isinstance(g, str))
        free = want.pop('any exception', 0)
        extra, missing = got-want, want-got
        rest = sum((extra-exceptions).values())
        n_any = sum(extra.values())-rest
        ncode = sum(g == 'code' for g in self.got)
        self.mon.check(not missing and not rest and n_any == free and ncode <= sum(k == 'code' for _, k, _ in self.submitted), rule, n=max(len(self.submitted), 1),
                       missing=[m[:80] for m in missing][:3], extra=[m[:80] for m in extra][:3], unnamed_exceptions=(n_any, free), ops=self.ops[-60:], **self.det)

    def executed(self):
        with open(self.log, 'rb') as f:
            lines = [tuple(int(x) for x in q.split()) for q in f.read().splitlines()]
        n = collections.Counter(u for u, p in lines)
        self.mon.check(n == collections.Counter(u for u, _, _ in self.submitted), 'every_task_runs_exactly_once', n=max(len(n), 1), twice=[u for u in n if n[u] > 1][:5],
                       never=[u for u, _, _ in self.submitted if u not in n][:5], ops=self.ops[-60:], **self.det)
        pids = {}
        pattern = tuple(pids.setdefault(p, len(pids)) for u, p in lines)
        self.mon.event('executions', len(lines))
        self.mon.event('worker_processes_used', len(pids))
        os.remove(self.log)
        return (tuple(u for u, p in lines), pattern)

    def close(self):
        self.ops.append('C')
        self.pool.close()
        left = [p for p in multiprocessing.active_children()]
        self.mon.check(not left, 'closing_ends_every_worker', alive=[p.pid for p in left], ops=self.ops[-60:], **self.det)

    def abandon(self):
        for p in multiprocessing.active_children():
            p.kill()
            p.join()


def drive(mon, tag, workers, det, body):
    t = None
    silent = io.StringIO()
    if getattr(mon, 'blocked', False):      # once is enough: each costs the time limit
        return None
    try:
        with watchdog(), contextlib.redirect_stdout(silent):
            t = Trace(mon, workers, tag, det)
            body(t)
            return t.executed()
    except Blocked:
        mon.blocked = True
        mon.check(False, 'does_not_block', ops=t.ops[-80:] if t else None, outstanding=t.outstanding() if t else None, **det)
    except Exception as e:
        mon.check(False, 'pool_answers', exception=repr(e), ops=t.ops[-80:] if t else None, **det)
    finally:
        for p in multiprocessing.active_children():
            p.kill()
            p.join()
    return None


def patterns(n):
    """all orders of n submissions and m <= n collections, collections never outnumbering submissions"""
    out = []

    def go(s, inflight, left):
        if not left:
            out.append(s)
        if left:
            go(s+'S', inflight+1, left-1)
        if inflight:
            go(s+'R', inflight-1, left)
    go('', 0, n)
    # whatever may follow the last submission
    full = set()
    for s in out:
        full.add(s)
        k = s.count('S')-s.count('R')
        for j in range(k+1):
            full.add(s+'R'*j)
    return sorted(full)


def exhaustive(mon):
    """every short schedule of submissions, collections and failures"""
    quiet()
    cases = []
    for n in (1, 2, 3) if mon.tier == 'quick' else (1, 2, 3, 4):
        for pat in patterns(n):
            for kinds in itertools.product(['number', 'raise', 'code'], repeat=n):
                for workers in (1, 2):
                    cases.append((pat, kinds, workers))
    k = 4 if mon.tier == 'quick' else 8
    mine = cases[mon.shard % k::k]
    if mon.tier == 'quick':
        # one worker is the schedule in which a lost worker is seen: all of it; the rest in part
        mine = [c for c in mine if len(c[1]) < 3 or c[2] == 1 and mon.rng.random() < .5 or mon.rng.random() < .15]
    for i, (pat, kinds, workers) in enumerate(mine):
        def body(t):
            j = 0
            for c in pat:
                if c == 'S':
                    t.submit(kinds[j], j+i, 0, custom=bool((i+j) % 2))
                    j += 1
                elif t.outstanding()[1] > 0:
                    t.result()
            if i % 3:
                t.all()
            t.close()
            if not i % 3:
                t.all()
                t.close()
        h = drive(mon, 'x%d_%d' % (mon.shard, i), workers, dict(pattern=pat, kinds=kinds, workers=workers), body)
        mon.case(('x', pat, kinds, workers, h), sample=dict(pattern=pat, kinds=kinds, workers=workers))


KINDS = ['payload', 'array', 'number', 'odd', 'ln_pdf', 'returned_exception', 'code', 'raise', 'raise_any', 'unsendable', 'unreceivable']


def quiet():
    gc.collect()
    gc.freeze()


def jolt(r, pool):
    """hold one of the workers for a moment"""
    ps = [w.pid for w in pool.workers if w.is_alive()]
    if ps:
        p = ps[int(r.integers(len(ps)))]
        subprocess.Popen(['/bin/sh', '-c', 'kill -STOP %d; sleep %.3f; kill -CONT %d' % (p, r.uniform(.001, .05), p)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def random(mon):
    """random schedules, durations, sizes, failures and delays"""
    quiet()
    r = mon.rng
    t0 = time.time()
    for i in range(mon.n(45, 400)):
        if time.time()-t0 > (200 if mon.tier == 'quick' else 700):
            break
        workers = int(r.choice([1, 1, 2, 3, 4, 8, 16]))
        n = int(r.choice([0, 1, workers, workers+1, 10, 40, 40, 200] if r.random() < .5 else [5, 10, 20, 40]))
        mix = r.dirichlet(np.full(len(KINDS), .5))
        style = str(r.choice(['mixed', 'plain', 'failing', 'codes', 'ln_pdf']))
        if style == 'plain':
            mix[5:] = 0
        elif style == 'failing':
            mix *= .2
            mix[KINDS.index('raise')] += .8
        elif style == 'codes':
            mix *= .2
            mix[KINDS.index('code')] += .8
        elif style == 'ln_pdf':
            mix *= .1
            mix[KINDS.index('ln_pdf')] += .9
        mix = mix/mix.sum()
        slow = float(r.choice([0, .002, .02]))
        eager = float(r.choice([.02, .3, .48, .6]))
        jolts = bool(r.random() < .3)
        end = str(r.choice(['all', 'all', 'close', 'close_all']))
        det = dict(workers=workers, tasks=n, style=style, slow=slow, eager=eager, jolts=jolts, end=end)
        seeds = r.integers(0, 2**31-10, n)
        kinds = [str(k) for k in r.choice(KINDS, n, p=mix)]

        def body(t):
            left = list(zip(kinds, seeds))
            while left:
                u = r.random()
                if u < eager and t.outstanding()[1] > 0:
                    t.result()
                elif u < eager+.01:
                    t.all()
                else:
                    k, s = left.pop()
                    t.submit(k, int(s), float(r.uniform(0, slow)) if r.random() < .7 else 0., custom=bool(r.integers(2)))
                if jolts and r.random() < .2:
                    jolt(r, t.pool)
                if r.random() < .05:
                    time.sleep(r.uniform(0, .01))
            if end == 'all':
                t.all()
                t.mon.check(t.pool.number_jobs == 0, 'nothing_is_outstanding_after_collecting_all', got=t.pool.number_jobs, **det)
                # and the pool goes on
                t.submit('payload', int(r.integers(1000)), 0)
                t.submit('ln_pdf', int(r.integers(1000)), 0)
                t.result()
                t.all()
                t.close()
            else:
                t.close()
                if end == 'close_all':
                    t.all()
                    t.close()
        h = drive(mon, 'r%d_%d' % (mon.shard, i), workers, det, body)
        mon.event('submissions', n)
        mon.event('interleavings')
        mon.case(('r', workers, style, h), sample=det)


def payloads(mon):
    """log-PDF objects on their own, through pickles and through a pool"""
    from MTfit.probability import LnPDF
    quiet()
    r = mon.rng
    for i in range(mon.n(200, 2000)):
        a = ln_pdf(int(r.integers(2**31-10)))
        b = mon.call('ln_pdf_pickles', lambda: pickle.loads(pickle.dumps(a, protocol=int(r.integers(0, pickle.HIGHEST_PROTOCOL+1)))))
        mon.check(isinstance(b, LnPDF) and canon(a) == canon(b), 'ln_pdf_survives_pickling', got=repr(b)[:200], want=repr(a)[:200])
        mon.case(('p', canon(a)), sample=dict(shape=a.shape, dV=float(a.dV)))
    for i in range(mon.n(4, 20)):
        def body(t):
            for j in range(60):
                t.submit('ln_pdf', int(r.integers(2**31-10)), 0, custom=bool(j % 2))
            t.all()
            t.close()
        drive(mon, 'p%d_%d' % (mon.shard, i), int(r.integers(1, 9)), dict(payloads=True), body)


WORKLOADS = {
    'random': dict(fn=random, flavours=['c'], shards={'quick': 4, 'thorough': 6}, need={'collecting_all_gives_precisely_the_outstanding': 500, 'executions': 500}, timeout={'quick': 600, 'thorough': 880}, hang='violation'),
    'exhaustive': dict(fn=exhaustive, flavours=['c'], shards={'quick': 4, 'thorough': 8}, need={'closing_ends_every_worker': 50}, timeout={'quick': 600, 'thorough': 880}, hang='violation'),
    'payloads': dict(fn=payloads, flavours=['c'], shards={'quick': 1, 'thorough': 2}, need={'ln_pdf_survives_pickling': 100}),
}

if __name__ == '__main__':
    harness.main('C16', __file__, WORKLOADS,
                 rule='one case = one pool with its schedule of submissions and collections, told apart by the order of execution and the worker that ran each task',
                 assumptions=['a result that can not be sent between processes counts as a task that raises',
                              'result() is asked for only while a task that gives something other than a status code is outstanding',
                              'single_life pools, tasks that end their process and unpicklable tasks are outside the statement'])
