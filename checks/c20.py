"""C20: the compiled extensions compute what the pure-Python paths compute.

Every generated input is given to the public routine in a process that runs the tree with the compiled extensions and in
one that runs the tree without them; an online monitor compares the two answers.  Tolerances are the rounding bounds of the
independent interval oracles (which decide how far two correct evaluations may be apart), never the answers themselves.
Random generators are compared by two-sample tests, decisions of the chain by scripting its uniform numbers."""
import contextlib
import copy
import gc
import io
import math
import os
import pickle
import shutil
import struct
import subprocess
import sys
import tempfile
import numpy as np
from scipy import stats
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vpm import harness, events as ev, likelihood as lk, tensors as tt, mcmc
from vpm.harness import p_confirm
import c01
import c04
import c15
import c18

EXT = ['probability/cprobability', 'convert/cmoment_tensor_conversion', 'algorithms/cmarkov_chain_monte_carlo', 'extensions/cscatangle']
INF = math.inf


def raw(x):
    return np.asarray(getattr(x, '_ln_pdf', x), dtype=float)


# ---------------------------------------------------------------- what is evaluated, in either process
def e_polarity(a, mt, s, w):
    from MTfit.probability import polarity_ln_pdf
    return raw(polarity_ln_pdf(a, mt, s, w))


def e_polarity_probability(a, mt, pp, pn, w):
    from MTfit.probability import polarity_probability_ln_pdf
    return raw(polarity_probability_ln_pdf(a, mt, pp, pn, w))


def e_ratio(z, mt, a1, a2, p1, p2):
    from MTfit.probability import amplitude_ratio_ln_pdf
    return raw(amplitude_ratio_ln_pdf(z, mt, a1, a2, p1, p2))


def e_relative(*c):
    from MTfit.probability import relative_amplitude_ratio_ln_pdf
    return [raw(q) for q in relative_amplitude_ratio_ln_pdf(*[np.ascontiguousarray(q) for q in c])]


def result(res):
    out = {k: res[k] for k in ('n',)}
    m = res['moment_tensors']
    out['mt'] = [np.asarray(q, dtype=float) for q in m] if isinstance(m, list) else np.asarray(m, dtype=float)
    out['ln'] = raw(res['ln_pdf'])
    if 'scale_factor' in res and not isinstance(res['scale_factor'], bool):
        out['scale'] = [(np.asarray(q['mu'], dtype=float), np.asarray(q['sigma'], dtype=float)) for q in res['scale_factor']]
    return out


def e_task(mt, m, weights, rz, marg):
    from MTfit.inversion import ForwardTask
    return result(ForwardTask(mt, m['a'], m['s'], m['a1'], m['a2'], m['z'], m['p1'], m['p2'], m['ap'], m['pp'], weights, m['w'], return_zero=rz, marginalise=marg)())


def e_generate(m, weights, n, dc, rz, marg):
    from MTfit.inversion import ForwardTask
    return result(ForwardTask(False, m['a'], m['s'], m['a1'], m['a2'], m['z'], m['p1'], m['p2'], m['ap'], m['pp'], weights, m['w'], return_zero=rz, marginalise=marg,
                              generate_samples=n, dc=dc, cutoff=20000)())


def e_joint(mts, ms, rel, weights, opts, relative):
    from MTfit.inversion import MultipleEventsForwardTask

    def g(k):
        return [m[k] for m in ms]
    t = MultipleEventsForwardTask(mts, g('a'), g('s'), g('a1'), g('a2'), g('z'), g('p1'), g('p2'), g('ap'), g('pp'),
                                  [q[0] for q in rel] if relative else [], [q[1] for q in rel] if relative else [], [q[2] for q in rel] if relative else [],
                                  [q[3] for q in rel] if relative else [], weights, g('w'), relative=relative, **opts)
    return result(t())


def e_marginalise(a, axis, dV, how):
    from MTfit.probability import ln_marginalise
    return raw(ln_marginalise(c04.form(a, how), axis, dV))


def e_normalise(a, dV, how):
    from MTfit.probability import ln_normalise
    return raw(ln_normalise(c04.form(a, how), dV))


def e_dkl(p, q, dV, wrap):
    from MTfit.probability import dkl, LnPDF
    return float(dkl(LnPDF(np.matrix(p)), LnPDF(np.matrix(q)), dV) if wrap else dkl(p, q, dV))


def e_dkl_estimate(p, V, N, wrap):
    from MTfit.probability import dkl_estimate, LnPDF
    return float(dkl_estimate(LnPDF(np.matrix(p)) if wrap else p, V, N))


def e_lnpdf(a, what, dV):
    from MTfit.probability import LnPDF
    x = LnPDF(np.matrix(a), dV=dV) if dV else LnPDF(np.matrix(a))
    return raw(getattr(x, what)())


def e_convert(name, args, form):
    from MTfit import convert as C
    from MTfit.convert import moment_tensor_conversion as M
    f = getattr(C, name, None) or getattr(M, name)
    args = [np.matrix(a) if form == 'matrix' and isinstance(a, np.ndarray) else a for a in args]
    out = f(*args)
    if isinstance(out, dict):
        return {k: np.array(v, dtype=float) for k, v in out.items()}
    if isinstance(out, (tuple, list)) and not all(isinstance(x, float) for x in out):
        return [np.array(x, dtype=float) for x in out]
    return np.array(out, dtype=float)


def e_random(kind, via, n):
    from MTfit.algorithms.base import BaseAlgorithm
    from MTfit.algorithms.monte_carlo import IterationSample
    kw = dict(number_samples=n)
    if via == 'direct':
        A = BaseAlgorithm(**kw)
        return np.asarray({'mt': A.random_mt, 'dc': A.random_dc, 'clvd': A.random_clvd}[kind](), dtype=float)
    if kind == 'dc':
        kw['dc'] = True
    elif kind == 'clvd':
        kw['sample_distribution'] = 'clvd'
    if via == 'sample':
        return np.asarray(BaseAlgorithm(**kw).random_sample(), dtype=float)
    if via == 'iteration':
        return np.asarray(IterationSample(**kw).random_sample(), dtype=float)
    return np.concatenate([np.asarray(q, dtype=float) for q in IterationSample(number_events=3, **kw).random_sample()], 1)


CHAINS = {}


def chain(conf):
    k = repr(sorted(conf.items()))
    if k not in CHAINS:
        c = dict(conf)
        CHAINS[k] = alg = mcmc.make(c.pop('events'), **c)
        alg.initialise()
    return CHAINS[k]


def put(alg, xs, ws, l0, jump=False):
    n = alg.number_events
    mcmc.set_widths(alg, ws)
    alg.xi = [dict(x) for x in xs] if n > 1 else dict(xs[0])
    d = [mcmc.is_dc(x) for x in xs]
    alg.dc = d if n > 1 else d[0]
    alg.ln_likelihood_xi = l0
    alg.jump = jump


def e_state(conf, xs, ws):
    """the tensor of a state"""
    alg = chain(conf)
    put(alg, xs, ws, 0.)
    m = alg.convert_sample(alg.xi)
    return np.concatenate([np.asarray(q, dtype=float).reshape(6, -1) for q in (m if isinstance(m, (list, tuple)) else [m])], 1)


def e_ratio_of(conf, xs, ws, l0, ys, l1, jump, args):
    alg = chain(conf)
    put(alg, xs, ws, l0, jump)
    return mcmc.f(alg.acceptance(list(ys) if alg.number_events > 1 else dict(ys[0]), l1, *args))


def compiled_chain():
    from MTfit.algorithms import markov_chain_monte_carlo as M
    return bool(getattr(M, 'cmarkov_chain_monte_carlo', None))


def moved(alg, xs, c):
    """the chain now holds candidate c and not its old state"""
    n = alg.number_events
    now = alg.xi if n > 1 else [alg.xi]
    return all(mcmc.f(now[e][k]) == mcmc.f(c[e][k]) for e in range(n) for k in mcmc.KEYS)


def e_decide(conf, xs, ws, l0, cands, ls, us, jumps):
    """for each uniform number, which of the tried candidates the chain moves to (-1: none) and the likelihood it then holds"""
    alg = chain(conf)
    n = alg.number_events
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        for u in us:
            if compiled_chain():
                put(alg, xs, ws, l0, any(jumps))
                v = [[dict(c[e]) for c in cands] for e in range(n)]
                alg.xi_1 = v if n > 1 else v[0]
                with mcmc.Rand(u):
                    alg.iterate({'ln_pdf': np.array([ls], dtype=float), 'moment_tensors': None, 'n': len(cands)})
                # two of the candidates may be the same state with different likelihoods
                got = [i for i, c in enumerate(cands) if moved(alg, xs, c)]
                got = [i for i in got if ls[i] == float(alg.ln_likelihood_xi)] or got
                out.append((got[0] if got else -1, float(alg.ln_likelihood_xi)))
                continue
            # the fallback proposes one state at a time
            r = (-1, l0)
            for i, (c, l) in enumerate(zip(cands, ls)):
                put(alg, xs, ws, l0, jumps[i])
                alg.xi_1 = [dict(q) for q in c] if n > 1 else dict(c[0])
                with mcmc.Rand(u):
                    alg.iterate({'ln_pdf': np.array([[l]], dtype=float), 'moment_tensors': None, 'n': 1})
                if moved(alg, xs, c):
                    r = (i, float(alg.ln_likelihood_xi))
                    break
            out.append(r)
    return out


def e_propose(conf, xs, ws, N):
    """N proposals from a state: parameters per event (gamma, delta, kappa, h, sigma), and their tensors"""
    import c06
    alg = chain(conf)
    if compiled_chain():
        alg._number_samples = 250
    out, mts, n = [[] for _ in xs], [[] for _ in xs], 0
    old = np.array([[x[k] for k in mcmc.KEYS] for x in xs])
    while n < N:
        put(alg, xs, ws, 0.)
        for e, (ys, m) in enumerate(c06.events_of(alg, alg.new_sample())):
            out[e] += [[mcmc.f(y[k]) for k in mcmc.KEYS] for y in ys]
            mts[e].append(np.asarray(m, dtype=float).reshape(6, -1))
        n = len(out[0])
    return np.array(out), [np.concatenate(m, 1) for m in mts], old


def e_scatangle(text, k, size):
    from MTfit.extensions.scatangle import parse_scatangle
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, 'a.scatangle')
        with open(f, 'w', newline='') as o:
            o.write(text)
        with contextlib.redirect_stdout(io.StringIO()):
            recs, w = parse_scatangle(f, k, size)
    finally:
        shutil.rmtree(d)
    return [c18.plain(x) for x in recs], [float(x) for x in w]


def e_bin_coefficients(a, a1, a2, ap, w, ext, eps):
    from MTfit.inversion import bin_angle_coefficient_samples
    with contextlib.redirect_stdout(io.StringIO()):
        out = bin_angle_coefficient_samples(a, a1, a2, ap, w, ext, eps)
    return [x if isinstance(x, (bool, dict)) else np.asarray(x, dtype=float) for x in out]


def scripted_samples(seed):
    """the same tensors from every random generator, whichever way they are drawn"""
    from MTfit.algorithms.base import BaseAlgorithm
    r = np.random.default_rng(seed)

    def draw(self, *a, **k):
        n = self.number_samples
        if self.dc:
            return tt.sdr_tensor(r.uniform(0, 2*np.pi, n), np.arccos(r.uniform(0, 1, n)), r.uniform(-np.pi, np.pi, n))
        x = r.normal(size=(6, n))
        return x/np.sqrt((x*x).sum(0))
    old = BaseAlgorithm.random_sample
    BaseAlgorithm.random_sample = draw
    return old


def e_inversion(data, scat, seed, options):
    """an inversion of given random tensors through the front end"""
    from MTfit.algorithms.base import BaseAlgorithm
    from MTfit.inversion import Inversion
    cwd, d = os.getcwd(), tempfile.mkdtemp()
    old = scripted_samples(seed)
    try:
        os.chdir(d)
        kw = dict(options)
        if scat is not None:
            c01.write_scat(os.path.join(d, 'l.scatangle'), *scat)
            kw['location_pdf_file_path'] = os.path.join(d, 'l.scatangle')
        with contextlib.redirect_stdout(io.StringIO()):
            inv = Inversion(data, algorithm='iterate', parallel=False, n=0, phy_mem=0.01, convert=False, path=d, **kw)
            inv.forward()
        v, m, n = c01.store(None, inv)
        out, _ = inv.algorithm.output(True, True) if len(m[0]) else ({}, '')
        keep = {k: np.asarray(x, dtype=float) for k, x in out.items() if k in ('ln_bayesian_evidence', 'dkl') or k in 'g d k h s u v S1 D1 R1 S2 D2 R2'.split()}
        return dict(ln=v, mt=m, n=int(n), out=keep)
    finally:
        BaseAlgorithm.random_sample = old
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def e_extensions():
    """which compiled modules this process has"""
    import importlib
    out = []
    for x in EXT:
        try:
            importlib.import_module('MTfit.'+x.replace('/', '.'))
            out.append(x)
        except ImportError:
            pass
    return out


E = {k[2:]: v for k, v in list(globals().items()) if k.startswith('e_')}


def evaluate(job):
    name, args = job
    try:
        return ('ok', E[name](*copy.deepcopy(args)))
    except Exception as e:
        import traceback
        return ('raised', repr(e)[:300]+traceback.format_exc()[-700:])


# ---------------------------------------------------------------- the other process
def serve():
    import warnings
    import logging
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    out = os.fdopen(os.dup(1), 'wb')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    import MTfit.inversion  # noqa: F401
    gc.collect()
    gc.freeze()
    while True:
        h = sys.stdin.buffer.read(8)
        if len(h) < 8:
            os._exit(0)
        jobs = pickle.loads(sys.stdin.buffer.read(struct.unpack('<Q', h)[0]))
        b = pickle.dumps([evaluate(j) for j in jobs])
        out.write(struct.pack('<Q', len(b))+b)
        out.flush()


class Peer(object):
    """a process running the tree at `base`"""

    def __init__(self, base):
        e = dict(os.environ)
        own = e['PYTHONPATH'].split(os.pathsep)
        e['PYTHONPATH'] = os.pathsep.join([base]+own[1:])
        for k in ('LD_PRELOAD', 'PYTHONMALLOC'):
            e.pop(k, None)
        self.base = base
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.abspath(__file__), '--serve'], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def send(self, jobs):
        b = pickle.dumps(jobs)
        try:
            self.p.stdin.write(struct.pack('<Q', len(b))+b)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def receive(self):
        h = self.p.stdout.read(8)
        if len(h) < 8:
            rc = self.p.wait()
            if rc < 0:
                return None
            raise OSError('the process running %s ended with %r' % (self.base, rc))
        return pickle.loads(self.p.stdout.read(struct.unpack('<Q', h)[0]))

    def ask(self, name, *args):
        self.send([(name, args)])
        return self.receive()[0]


def root():
    return os.path.dirname(os.environ['PYTHONPATH'].split(os.pathsep)[0])


class Pair(object):
    """left: a tree with compiled extensions (this process by default); right: the pure-Python tree"""

    def __init__(self, mon, left=None):
        self.mon, self.left = mon, left
        import MTfit.inversion  # noqa: F401
        gc.collect()
        gc.freeze()
        self.right = Peer(os.path.join(root(), 'py'))
        st, have = self.right.ask('extensions')
        assert st == 'ok' and not have, have
        self.todo = []

    def both(self, name, *args):
        self.right.send([(name, args)])
        if self.left:
            self.left.send([(name, args)])
            a = self.left.receive()
        else:
            a = [evaluate((name, args))]
        return self.judge_one(a and a[0], self.right.receive()[0], name, {})

    def judge_one(self, a, b, name, det):
        mon = self.mon
        if a is None:
            mon.check(False, 'compiled_path_does_not_crash', routine=name, **det)
            raise harness.CodeRaised(name)
        if a[0] != b[0]:
            mon.check(False, 'both_paths_answer', routine=name, compiled=a if a[0] == 'raised' else 'answers', python=b if b[0] == 'raised' else 'answers', **det)
            return None
        if a[0] == 'raised':
            mon.event('both_raise')
            return None
        mon.check(True, 'both_paths_answer')
        mon.event('compared_'+name)
        return a[1], b[1]

    def add(self, name, args, judge, det):
        self.todo.append((name, args, judge, det))
        if len(self.todo) >= 100:
            self.flush()

    def flush(self):
        todo, self.todo = self.todo, []
        jobs = [t[:2] for t in todo]
        self.right.send(jobs)
        if self.left:
            self.left.send(jobs)
            A = self.left.receive()
        else:
            A = [evaluate(j) for j in jobs]
        B = self.right.receive()
        for i, (name, args, judge, det) in enumerate(todo):
            ab = self.judge_one(A and A[i], B[i], name, det)
            if ab is not None:
                judge(self.mon, ab[0], ab[1], det)


# ---------------------------------------------------------------- judges
def shape_of(x):
    return np.squeeze(np.asarray(x)).shape


def bounded(rule, lo, hi):
    """two evaluations of a quantity that rounding lets be anywhere in [lo, hi]"""
    def judge(mon, c, p, det):
        compare(mon, rule, c, p, lo, hi, det)
    return judge


def compare(mon, rule, c, p, lo, hi, det):
    if np.isneginf(c).all() and np.isneginf(p).all() and np.ndim(c) and np.shape(c)[-1] == np.shape(p)[-1]:
        # all candidates impossible: one row, or one for each location
        mon.check(True, rule)
        return
    if not mon.check(shape_of(c) == shape_of(p), rule+'_shape', compiled=np.shape(c), python=np.shape(p), **det):
        return
    if np.size(c) != lo.size:
        if np.size(c) == lo.shape[-1]:
            # all candidates impossible: one row
            lo, hi = lo.min(0), hi.max(0)
        else:
            # the rows of each location: the interval of the sum over them says which candidates rounding decides
            c, p = [np.asarray(q, dtype=float).reshape(-1, lo.shape[-1]) for q in (c, p)]
            sure = (np.isfinite(lo) & np.isfinite(hi) & (hi-lo < 1e-6)).all(0) | np.isneginf(hi).all(0)
            with np.errstate(all='ignore'):
                ok = (c == p) | (np.abs(c-p) <= 1e-6+1e-9*np.abs(p)) | (np.maximum(c, p) < hi.max(0)-30) | ~sure
            mon.check(ok.all(), rule, n=ok.size, compiled=c[~ok][:4], python=p[~ok][:4], **det)
            return
    c, p, lo, hi = [np.asarray(q, dtype=float).reshape(-1) for q in (c, p, lo, hi)]
    with np.errstate(all='ignore'):
        w = np.where(np.isfinite(lo) & np.isfinite(hi), hi-lo, np.inf)
        ok = (c == p) | (np.isnan(c) & np.isnan(p)) | (np.abs(c-p) <= w) | (np.isinf(w) & (np.maximum(c, p) <= hi+1e-6))
    mon.event('resolved', int((w < 1e-3).sum()))
    mon.check(ok.all(), rule, n=ok.size, compiled=c[~ok][:4], python=p[~ok][:4], interval=[lo[~ok][:4], hi[~ok][:4]], **det)


def nearby(rule, rtol, atol, period=None):
    def judge(mon, c, p, det):
        same(mon, rule, c, p, rtol, atol, det)
    return judge


def same(mon, rule, c, p, rtol, atol, det):
    if isinstance(c, (list, tuple)) and not all(isinstance(x, (int, float)) for x in c):
        if mon.check(len(c) == len(p), rule+'_shape', compiled=len(c), python=len(p), **det):
            for i, (x, y) in enumerate(zip(c, p)):
                same(mon, rule, x, y, rtol, atol, det)
        return
    if not mon.check(shape_of(c) == shape_of(p), rule+'_shape', compiled=np.shape(c), python=np.shape(p), **det):
        return
    c, p = np.asarray(c, dtype=float).reshape(-1), np.asarray(p, dtype=float).reshape(-1)
    with np.errstate(all='ignore'):
        ok = (c == p) | (np.isnan(c) & np.isnan(p)) | (np.abs(c-p) <= atol+rtol*np.abs(p))
    mon.check(ok.all(), rule, n=max(1, ok.size), compiled=c[~ok][:4], python=p[~ok][:4], **det)


def tensor_rounding(h):
    """what rounding of the dip's cosine may do to a unit tensor"""
    s = np.sqrt(np.maximum(0, 1-np.asarray(h, dtype=float)**2))
    return 2e-15+np.minimum(1e-15/np.maximum(s, 1e-300), 6e-8)


def columns(r):
    """value of every returned candidate"""
    m = r['mt']
    m = np.concatenate(m) if isinstance(m, list) else m
    k = m.shape[1] if m.ndim == 2 and m.size else 0
    v = r['ln'].reshape(-1, k) if k else np.zeros((1, 0))
    out = {}
    for j in range(k):
        out.setdefault(np.ascontiguousarray(m[:, j]).tobytes(), []).append((v[:, j], j))
    return out


def of_task(rule, mts, lo, hi, rz, scales=None):
    """mts: the candidates (concatenated over events)"""
    def judge(mon, c, p, det):
        mon.check(c['n'] == p['n'], rule+'_n', compiled=c['n'], python=p['n'], **det)
        a, b = columns(c), columns(p)
        if rz:
            mon.check(np.shape(c['mt']) == np.shape(p['mt']) and all(np.array_equal(x, y) for x, y in zip(c['mt'], p['mt'])), rule+'_returns_the_same_candidates', compiled=np.shape(c['mt']), python=np.shape(p['mt']), **det)
            compare(mon, rule, c['ln'], p['ln'], lo, hi, det)
        for j in range(mts.shape[1]):
            k = np.ascontiguousarray(mts[:, j]).tobytes()
            x, y = a.get(k, []), b.get(k, [])
            if len(x) != len(y):
                # dropped by one of them: as impossible as rounding allows
                mon.check(np.isneginf(lo[:, j]).any() or (lo[:, j] < -690).any(), rule+'_keeps_the_same_candidates', compiled=len(x), python=len(y), lo=lo[:, j], hi=hi[:, j], column=mts[:, j], **det)
                continue
            if not rz:
                for (u, _), (v, _) in zip(x, y):
                    compare(mon, rule+'_filtered', u.reshape(-1, 1), v.reshape(-1, 1), lo[:, [j]], hi[:, [j]], det)
            if scales is not None and x and 'scale' in c and 'scale' in p:
                for (_, i), (_, q) in zip(x, y):
                    for s, t in zip(c['scale'][i], p['scale'][q]):
                        good = scales(j, s.shape)
                        s, t = s.reshape(-1), t.reshape(-1)
                        ok = ~good | (np.abs(s-t) <= 1e-6*np.abs(t)) | (s == t)
                        mon.check(ok.all(), rule+'_scale_factors', n=ok.size, compiled=s[~ok], python=t[~ok], **det)
        extra = [k for k in a if k not in b]
        known = set(np.ascontiguousarray(mts[:, j]).tobytes() for j in range(mts.shape[1]))
        mon.check(all(k in known for k in list(a)+list(b)), rule+'_returns_candidates_only', extra=len(extra), **det)
    return judge


# ---------------------------------------------------------------- workloads
def layout(r, x):
    return np.matrix(x) if r.random() < .3 else np.asfortranarray(x) if r.random() < .3 else x


def gen_likelihood(r, pr, mon):
    import c02
    kind = int(r.integers(4))
    u, v, n, a, mt, s, w = c02.gen(mon)
    if kind == 0:
        x = np.einsum('uvk,kn->uvn', a, mt)
        lo, hi = lk.polarity(a, s, w, mt)
        det = dict(a=a, mt=mt, sigma=s, w=w)
        if w_ok(w):
            pr.add('polarity', (a, layout(r, mt), s, w), bounded('polarity_likelihood', lo, hi), det)
            mon.case([a, mt, s, repr(w)], sample=dict(kind='polarity', u=u, v=v, n=n))
    elif kind == 1:
        pp = r.choice([0., 1., .5, r.random(), r.random()], u)
        pn = np.where(r.random(u) < .7, 1-pp, r.random(u)*(1-pp))
        lo, hi = lk.polarity_probability(a, pp, pn, w, mt)
        det = dict(a=a, mt=mt, pp=pp, pn=pn, w=w)
        pr.add('polarity_probability', (a, layout(r, mt), pp, pn, w), bounded('polarity_probability_likelihood', lo, hi), det)
        mon.case([a, mt, pp, pn, repr(w)], sample=dict(kind='polarity probability', u=u, v=v, n=n))
    elif kind == 2:
        import c03
        a2 = r.normal(size=a.shape)*10**r.uniform(-2, 2)
        p1, p2 = c03.draw_err(r, u), c03.draw_err(r, u)
        with np.errstate(all='ignore'):
            z = np.abs(np.einsum('uvk,kn->uvn', a, mt)/np.einsum('uvk,kn->uvn', a2, mt))[:, r.integers(v), r.integers(n)]
        z = np.where(np.isfinite(z) & (z > 0), z, 1.)*np.exp(r.normal(size=u)*r.choice([0., 1e-3, 1e-1, 1., 4.]))
        lo, hi = lk.ratio(a, a2, z, p1, p2, mt)
        det = dict(z=z, a1=a, a2=a2, p1=p1, p2=p2, mt=mt)
        pr.add('ratio', (z, layout(r, mt), a, a2, p1, p2), bounded('amplitude_ratio_likelihood', lo, hi), det)
        mon.case([a, a2, mt, z, p1, p2], sample=dict(kind='amplitude ratio', u=u, v=v, n=n))
    else:
        u = int(r.choice([1, 2, 4, 8]))
        ai, aj = [r.normal(size=(u, v, 6)) for _ in range(2)]
        mi, mj = [q/np.sqrt((q*q).sum(0)) for q in r.normal(size=(2, 6, n))]
        x0, y0 = np.abs(lk.amps(ai, mi)[0][:, 0, 0]), np.abs(lk.amps(aj, mj)[0][:, 0, 0])
        if min(x0.min(), y0.min()) < 1e-3:
            return
        pmax = 10**r.uniform(-5, -.3)
        pi, pj = pmax*r.uniform(.1, 1, u), pmax*r.uniform(.1, 1, u)
        c = 10**r.uniform(-6, 6)
        xi = 10**r.uniform(-4, 4)*x0*(1+pi*np.clip(r.normal(size=u), -2, 2))*c
        xj = y0*(1+pj*np.clip(r.normal(size=u), -2, 2))*c
        det = dict(x=xi, y=xj, mt1=mi, mt2=mj, a1=ai, a2=aj, p1=pi, p2=pj)
        # how well each station's scale and its variance are resolved
        (X, ex), (Y, ey) = lk.amps(ai, mi), lk.amps(aj, mj)
        cond = (ex/np.abs(X)+ey/np.abs(Y)).max(0)
        z = (xi/xj).reshape(u, 1, 1)
        mu, var, scale = c15.station_scale(z, np.abs(X), np.abs(Y), pi.reshape(u, 1, 1), pj.reshape(u, 1, 1))
        good = (var > 1e-6*scale).all(0) & (cond < 1e-9)

        def judge(mon, c, p, det):
            if not mon.check(len(c) == len(p) == 3 and all(shape_of(x) == shape_of(y) for x, y in zip(c, p)), 'relative_shapes', compiled=[np.shape(x) for x in c], python=[np.shape(x) for x in p], **det):
                return
            g = good.reshape(-1)
            c, p = [[np.asarray(x).reshape(-1) for x in q] for q in (c, p)]
            if c[0].size != g.size:
                return
            for k, rule in ((1, 'relative_scale'), (2, 'relative_scale_uncertainty')):
                ok = ~g | (np.abs(c[k]-p[k]) <= 1e-6*np.abs(p[k]))
                mon.check(ok.all(), rule, n=ok.size, compiled=c[k][~ok], python=p[k][~ok], **det)
            s = p[1].reshape(good.shape)
            l, h = c15.relative_term((xi/xj), ai, aj, mi, mj, pi, pj, s)
            # rounding of the scale moves the term
            with np.errstate(all='ignore'):
                ds = np.abs(c[1]-p[1])/np.abs(p[1])
                slack = (u*2/np.minimum(pi, pj).min())**2*(ds.reshape(good.shape)+1e-14)*10
            l, h = np.where(good, l-slack, -INF), np.where(good, h+slack, INF)
            compare(mon, 'relative_likelihood', c[0], p[0], l, h, det)
        pr.add('relative', (xi, xj, mi, mj, ai, aj, pi, pj), judge, det)
        mon.case([xi, xj, mi, mj, ai, aj], sample=dict(kind='relative', u=u, v=v, n=n))


def w_ok(w):
    return True


def likelihoods(mon):
    pr = Pair(mon)
    for it in range(mon.n(1500 if mon.flavour == 'san' else 6000, 60000)):
        gen_likelihood(mon.rng, pr, mon)
    pr.flush()


def gen_task(r, pr, mon):
    keys, model, e, loc, table, w = c01.scene(r)
    n = int(r.choice([1, 2, 3, 5, 6, 7, 30]))
    mt = c01.gen_mt(r, n, model, e.obs)
    m = c01.matrices(mon, e.data, loc)
    marg, rz = bool(r.random() < .75), bool(r.random() < .5)
    lo, hi = c01.expected(e.obs, table, w, mt, marg)
    det = dict(keys=keys, data=e.data, location=loc, weights=w, mt=mt, marginalise=marg, return_zero=rz)
    pr.add('task', (np.matrix(mt) if r.random() < .5 else mt, m, w, rz, marg), of_task('combined_likelihood', mt, lo, hi, rz), det)
    mon.event('location_weighted', int(bool(w)))
    mon.case([mt, repr(e.data), repr(loc), repr(w)], sample=dict(keys=keys, observations=len(e.obs), location_samples=0 if loc is None else len(loc), candidates=n))


def gen_joint(r, pr, mon):
    evs, relative, overlap, ampkeys = c15.scene(r)
    L = int(r.choice([1, 1, 2, 4]))
    if L > 1 or r.random() < .3:
        locs, tables = c15.gen_tables(r, evs, L)
        w = c01.gen_weights(r, L)
    else:
        locs = tables = [None]*len(evs)
        w = False
    n = int(r.choice([1, 2, 5, 12]))
    mts = [c01.gen_mt(r, n, e.model, e.obs) for e in evs]
    mini = int(r.choice([1, 1, 2, 3]))
    marg = bool(r.random() < .6)
    rz = bool(r.random() < .5)
    opts = dict(minimum_number_intersections=mini, marginalise_relative=marg, return_zero=rz)
    ms, rel = c15.inputs(mon, evs, locs)
    try:
        alts, scales, npair = c15.expect(mon, evs, tables, w, mts, relative, mini, L, marg)
    except Exception:
        return
    lo, hi = alts[0]
    for a, b in alts[1:]:
        lo, hi = np.minimum(lo, a), np.maximum(hi, b)
    if len(alts) > 1:
        # which of the location weightings is used is the same for both: use the interval's own width
        lo, hi = alts[0]
    lo = np.where(hi < -690, -INF, lo)

    def good(j, shape):
        g = np.zeros(shape, dtype=bool).reshape(-1, len(evs), len(evs))
        for (a, b), (s, d) in scales.items():
            g[:, a, b] = np.isfinite(s[:, j]).all()
        return g.reshape(-1)
    det = dict(data=[e.data for e in evs], location=locs, weights=w, mts=mts, options=opts, relative=relative)
    cat = np.concatenate(mts)
    pr.add('joint', ([np.array(m) for m in mts], ms, rel, w, opts, relative), of_joint(cat, lo, hi, rz, good if relative else None), det)
    mon.event('pairs', npair)
    mon.case([cat, repr([e.data for e in evs]), repr(w)], sample=dict(events=len(evs), relative=relative, overlap=overlap, pairs=npair, location_samples=L))


def of_joint(cat, lo, hi, rz, good):
    base = of_task('joint_likelihood', cat, lo, hi, rz, good)

    def judge(mon, c, p, det):
        base(mon, c, p, det)
    return judge


def tasks(mon):
    pr = Pair(mon)
    for it in range(mon.n(500 if mon.flavour == 'san' else 1600, 14000)):
        gen_task(mon.rng, pr, mon)
        if it % 4 == 0:
            gen_joint(mon.rng, pr, mon)
    pr.flush()


def generated(mon):
    """sources drawn and evaluated by the compiled code, evaluated again in Python"""
    r = mon.rng
    pr = Pair(mon)
    for it in range(mon.n(120, 1500)):
        keys, model, e, loc, table, w = c01.scene(r, 4)
        m = c01.matrices(mon, e.data, loc)
        dc, marg = bool(r.random() < .5), bool(r.random() < .75)
        n = int(r.choice([5, 50, 300]))
        st, c = evaluate(('generate', (m, w, n, dc, False, marg)))
        det = dict(keys=keys, data=e.data, location=loc, weights=w, samples=n, dc=dc, marginalise=marg)
        if not mon.check(st == 'ok', 'generation_answers', got=c, **det):
            continue
        mon.check(c['n'] >= n, 'generation_tries_the_requested_number', got=c['n'], **det)
        mt = c['mt']
        if mt.ndim < 2 or not mt.size:
            mon.event('nothing_possible')
            continue
        mon.check(mt.shape[0] == 6 and np.abs(np.sqrt((mt*mt).sum(0))-1).max() < 1e-8, 'generated_sources_are_unit', **det)
        if dc:
            E_ = np.linalg.eigvalsh(tt.m33(mt))
            mon.check(np.abs(E_-np.array([-1, 0, 1])/np.sqrt(2)).max() < 1e-7, 'generated_double_couples', **det)
        st, p = pr.right.ask('task', mt, m, w, True, marg)
        if not mon.check(st == 'ok', 'both_paths_answer', python=p, **det):
            continue
        lo, hi = c01.expected(e.obs, table, w, mt, marg)
        compare(mon, 'generated_likelihood', c['ln'].reshape(lo.shape) if c['ln'].size == lo.size else c['ln'], p['ln'].reshape(lo.shape) if p['ln'].size == lo.size else p['ln'], lo, hi, det)
        mon.event('generated_sources', mt.shape[1])
        mon.case([mt[:, 0], repr(e.data), repr(w)], sample=dict(keys=keys, n=n, dc=dc, returned=mt.shape[1]))


def magnitude(*a):
    m = [np.abs(x[np.isfinite(x)]).max() for x in a if np.isfinite(x).any()]
    return max(m) if m else 1.


def gen_reduction(r, pr, mon):
    a, dV = c04.gen(mon)
    k = int(r.integers(6))
    t = 2*c04.tol(a)
    how = c04.FORMS[int(r.integers(len(c04.FORMS)))]
    if k == 0:
        axis = int(r.integers(2))
        pr.add('marginalise', (a, axis, dV, how), nearby('marginalised', 0, t), dict(a=a, axis=axis, dV=dV, form=how))
    elif k == 1:
        if r.random() < .7:
            a = a[:1]
        if how != 'lnpdf' and how != 'matrix' and len(a) == 1 and r.random() < .5:
            a, how = a[0], 'array'
        pr.add('normalise', (a, dV, how), nearby('normalised', 0, t), dict(a=a, dV=dV, form=how))
    elif k == 2:
        what = str(r.choice(['exp', 'normalise', 'marginalise', 'output', 'nonzero']))
        if what == 'exp':
            a = np.minimum(a, 690)
            pr.add('lnpdf', (a, what, 0), nearby('lnpdf_'+what, 1e-12, 1e-300), dict(a=a, method=what))
        elif what == 'nonzero':
            pr.add('lnpdf', (a, what, 0), nearby('lnpdf_'+what, 0, 0), dict(a=a, method=what))
        else:
            pr.add('lnpdf', (a, what, dV), nearby('lnpdf_'+what, 0, t), dict(a=a, dV=dV, method=what))
    elif k == 3:
        p = a.reshape(-1)
        if not np.isfinite(p).any():
            return
        N = len(p)+int(r.choice([0, 3, 1000]))
        V = float(r.choice([1., np.pi**3, 2e-3]))
        pr.add('dkl_estimate', (p, V, N, bool(r.random() < .5)), nearby('dkl_estimate', 1e-10, 1e-10+4e-15*magnitude(p)), dict(a=p, V=V, N=N))
    else:
        p = a.reshape(-1)
        q = c04.gen(mon)[0].reshape(-1)
        q = np.resize(q, p.shape)
        if r.random() < .7:
            q = p+r.normal(size=p.shape)*10**r.uniform(-3, 2)
        if not np.isfinite(p).any() or not np.isfinite(q).any():
            return
        lp, lq = p-p[np.isfinite(p)].max(), q-q[np.isfinite(q)].max()
        # probabilities that underflow where the other has no support are decided by rounding
        if (np.isneginf(q) & np.isfinite(p) & (lp < -690)).any():
            return
        pr.add('dkl', (p, q, dV, bool(r.random() < .5)), nearby('dkl', 1e-9, 1e-10+8e-15*(magnitude(p)+magnitude(q))), dict(p=p, q=q, dV=dV))
    mon.case([a, dV, k, how], sample=dict(kind=k, form=how, shape=a.shape))


def reductions(mon):
    pr = Pair(mon)
    for it in range(mon.n(2500 if mon.flavour == 'san' else 5000, 60000)):
        gen_reduction(mon.rng, pr, mon)
    pr.flush()


# -- conversions
def plane(mon, rule, c, p, det, tol=1e-6, either=False):
    """strike, dip, rake of both paths (arrays); the same plane and slip, and the same angles where they are unique.
    tol may be an array. either: the order of the two planes is up to the signs of the eigenvectors"""
    c, p = [np.array([np.asarray(x, dtype=float).reshape(-1) for x in q]) for q in (c, p)]
    if not mon.check(c.shape == p.shape, rule+'_shape', compiled=c.shape, python=p.shape, **det):
        return
    with np.errstate(all='ignore'):
        nc, uc = tt.sdr_vectors(*c)
        np_, up = tt.sdr_vectors(*p)
        tol = np.broadcast_to(tol, c.shape[1:])
        d1 = np.maximum(np.abs(nc-np_).max(0), np.abs(uc-up).max(0))
        d2 = np.maximum(np.abs(nc+np_).max(0), np.abs(uc+up).max(0))
        flip = np.abs(p[1]-np.pi/2) < np.maximum(1e-6, 2*tol)
        ok = (d1 <= tol) | flip & (d2 <= tol) | (np.isnan(c).any(0) & np.isnan(p).any(0))
        # unique angles
        generic = (p[1] > 1e-3) & (p[1] < np.pi/2-1e-3) & (tol < 1e-4)
        t2 = np.minimum(1e-3, 20*tol/np.where(p[1] > 1e-3, p[1], 1e-3))
        wrap = (np.minimum(np.abs(p[0]), np.abs(p[0]-2*np.pi)) < t2)
        okk = (np.abs(c[0]-p[0]) <= t2) | wrap & (np.minimum(np.abs(c[0]), np.abs(c[0]-2*np.pi)) < 2*t2)
        okr = (np.abs(c[2]-p[2]) <= t2) | (np.abs(np.abs(p[2])-np.pi) < t2) & (np.abs(np.abs(c[2])-np.pi) < 2*t2)
    ok &= ~generic | okk & okr
    mon.event('generic_planes', int(generic.sum()))
    mon.check(ok.all(), rule, n=max(1, ok.size), compiled=c[:, ~ok][:, :3], python=p[:, ~ok][:, :3], vectors=[d1[~ok][:3], d2[~ok][:3]], **det)


def axes(mon, c, p, M, det):
    """T, N, P, E of tensors M (6, n) with unit norm"""
    if not mon.check(len(c) == len(p) == 4, 'principal_axes_shape', **det):
        return
    n = M.shape[1]
    A = [np.asarray(x).reshape(3, -1) for x in c]
    B = [np.asarray(x).reshape(3, -1) for x in p]
    if not mon.check(all(x.shape == (3, n) for x in A+B), 'principal_axes_shape', compiled=[np.shape(x) for x in c], python=[np.shape(x) for x in p], **det):
        return
    s = np.sqrt((M*M).sum(0))
    mon.close(A[3]/s, B[3]/s, 'eigenvalues', rtol=0, atol=1e-13, **det)
    g = np.abs(np.diff(B[3], axis=0))/s
    gap = [g[0], g.min(0), g[1]]
    for k, name in ((0, 'T'), (1, 'N'), (2, 'P')):
        tol = 1e-12/np.maximum(gap[k], 1e-300)
        with np.errstate(all='ignore'):
            ok = (np.minimum(np.abs(A[k]-B[k]).max(0), np.abs(A[k]+B[k]).max(0)) <= tol) | (tol > .1)
        mon.check(ok.all(), 'principal_axes', n=n, axis=name, compiled=A[k][:, ~ok][:, :2], python=B[k][:, ~ok][:, :2], **det)
    # repeated eigenvalues: still an orthonormal decomposition of the tensor
    for X, who in ((A, 'compiled'), (B, 'python')):
        re = sum(X[3][i][:, None, None]*np.einsum('in,jn->nij', X[i], X[i]) for i in range(3))
        mon.close(re/s[:, None, None], tt.m33(M)/s[:, None, None], 'axes_rebuild_the_tensor', rtol=0, atol=1e-12, who=who, **det)
    return gap


def gen_conversion(r, pr, mon, stat):
    kind = str(r.choice(['TNPE', 'GD', 'TP', 'SDR', 'Tape', 'output', 'output', 'iso', 'biaxes', 'potency', 'stiff']))
    n = int(r.choice([1, 2, 3, 4, 5, 6, 7, 12]))
    form = 'matrix' if r.random() < .3 else 'array'

    def six():
        M = np.array([np.asarray(tt.unit6(r)[0]).flatten() if r.random() < .5 else r.normal(size=6) for _ in range(n)]).T
        M[:, np.sqrt((M*M).sum(0)) < 1e-9] = 1.
        return M/np.sqrt((M*M).sum(0))
    det = dict(kind=kind, form=form)
    if kind == 'TNPE':
        M = six()
        if r.random() < .5:
            M = M*10**r.uniform(-3, 15)
        det['mt'] = M

        def judge(mon, c, p, det):
            gap = axes(mon, c, p, M, det)
            if gap is not None:
                q = (gap[0] > 1e-3) & (gap[2] > 1e-3)
                for k in (0, 2):
                    with np.errstate(all='ignore'):
                        stat['axis'].append(float(((np.asarray(c[k]).reshape(3, -1)*np.asarray(p[k]).reshape(3, -1)).sum(0) > 0)[q].sum()))
                        stat['axes'].append(int(q.sum()))
        pr.add('convert', ('MT6_TNPE', [M], form), judge, det)
        key = M
    elif kind == 'GD':
        Ev = np.array([np.sort(tt.hostileE(r)[0])[::-1] for _ in range(n)]).T*10**r.uniform(-3, 3)
        if n == 1:
            Ev = Ev[:, 0]
        det['E'] = Ev
        form = det['form'] = 'array'

        def judge(mon, c, p, det):
            if not mon.check(len(c) == len(p) == 2 and all(np.size(x) == n for x in list(c)+list(p)), 'source_type_shape', compiled=[np.shape(x) for x in c], python=[np.shape(x) for x in p], **det):
                return
            e = Ev.reshape(3, -1)
            s = np.sqrt((e*e).sum(0))
            dev = np.sqrt(((e-e.mean(0))**2).sum(0))/s
            source(mon, c[0], p[0], c[1], p[1], dev, det)
        pr.add('convert', ('E_GD', [Ev], form), judge, det)
        key = Ev
    elif kind == 'TP':
        R = [tt.rotation(r, special=r.random() < .35) for _ in range(n)]
        T, P = np.array([q[:, 0] for q in R]).T, np.array([q[:, 2] for q in R]).T
        det.update(T=T, P=P)
        name = str(r.choice(['TP', 'TNP']))
        N = np.cross(T.T, P.T).T
        args = [T, P] if name == 'TP' else [T, N, P]
        form = det['form'] = 'matrix'
        # the code takes vectors whose normal is horizontal-plane to rounding as they come
        nz = np.minimum(np.abs((T+P)[2]), 1)/np.sqrt(2)
        hz = np.sqrt(np.maximum(0, 1-nz**2))
        tol = np.where(hz < 2e-6, 1e-5, 1e-7)
        pr.add('convert', (name+'_SDR', args, form), lambda mon, c, p, det: plane(mon, 'axes_to_plane', c, p, det, tol), det)
        key = np.concatenate([T, P])
    elif kind == 'SDR':
        s, d, k = r.uniform(0, 2*np.pi, n), np.arccos(r.uniform(0, 1, n)), r.uniform(-np.pi, np.pi, n)
        if r.random() < .4:
            s = r.choice([0., np.pi/2, np.pi, 3*np.pi/2, s[0]], n)
            d = r.choice([np.pi/2, np.pi/4, np.pi/6, d[0], 1e-3], n)
            k = r.choice([0., np.pi/2, -np.pi/2, np.pi, np.pi/4, k[0], -np.pi], n)
        scalar = n == 1 and r.random() < .5
        args = [float(s[0]), float(d[0]), float(k[0])] if scalar else [s, d, k]
        form = det['form'] = 'array'
        det.update(strike=s, dip=d, rake=k)
        # the other plane's dip is the angle of the slip vector from the vertical
        u = tt.sdr_vectors(s, d, k)[1]
        hz = np.hypot(u[0], u[1])
        tol = np.where(hz < 2e-6, 1e-5, 1e-7)
        pr.add('convert', ('SDR_SDR', args, form), lambda mon, c, p, det: plane(mon, 'auxiliary_plane', c, p, det, tol), det)
        key = np.array([s, d, k])
    elif kind == 'Tape':
        x = [mcmc.state(r, bool(r.random() < .2)) for _ in range(n)]
        a = [np.array([q[k] for q in x]) for k in mcmc.KEYS]
        if n == 1 and r.random() < .5:
            a = [float(q[0]) for q in a]
        form = det['form'] = 'array'
        det['x'] = a
        pr.add('convert', ('Tape_MT6', a, form), nearby('tape_tensor', 1e-12, np.tile(tensor_rounding(a[3]), 6)), det)
        key = np.array(a)
    elif kind == 'output':
        M = six()
        det['mt'] = M
        form = det['form'] = 'array'
        pr.add('convert', ('output_convert', [M], form), lambda mon, c, p, det: output(mon, c, p, M, det, stat), det)
        key = M
    elif kind == 'iso':
        mu, lam = 10**r.uniform(-2, 2), 10**r.uniform(-2, 2)*r.choice([-.3, 1])
        if r.random() < .5:
            pr.add('convert', ('isotropic_c', [lam, mu], 'array'), nearby('isotropic_stiffness', 1e-12, 0), dict(det, lam=lam, mu=mu))
            key = np.array([lam, mu])
        else:
            c = stiffness(r)
            pr.add('convert', ('isotropic_c', [1, 1, c], 'array'), nearby('isotropic_stiffness', 1e-9, 1e-12*np.abs(c).max()), dict(det, c=c))
            key = np.array(c)
    else:
        c = list(map(float, tt.iso21(10**r.uniform(-2, 2)*r.uniform(0, 3), 10**r.uniform(-2, 2)))) if r.random() < .4 else stiffness(r)
        s = np.abs(c).max()
        det['c'] = c
        M = six()
        if kind == 'potency':
            m = M if r.random() < .5 or form == 'matrix' else M[:, 0]
            det['mt'] = m
            cond = np.linalg.cond(tt.mandel(tt.c_tensor(c)))
            pr.add('convert', ('MT6c_D6', [m, c], form), nearby('potency', 1e-12*cond, 1e-12*cond/s), det)
        elif kind == 'stiff':
            # an isotropy test that rounding decides is left out
            name = str(r.choice(['is_isotropic_c', 'c21_cvoigt', 'c_norm']))
            det['routine'] = name
            pr.add('convert', (name, [c], 'array'), nearby('stiffness_'+name, 1e-12, 1e-13*s), det)
        else:
            m = M if r.random() < .5 or form == 'matrix' else M[:, 0]
            det['mt'] = m
            pr.add('convert', ('MT6_biaxes', [m, c], form), lambda mon, a, b, det: biaxes(mon, a, b, m, c, det), det)
        key = np.concatenate([np.asarray(c), M.flatten()])
    mon.event('kind_'+kind)
    mon.case([key, kind, form], sample=dict(kind=kind, form=form, n=n))


def stiffness(r):
    """positive definite, away from isotropy"""
    A = r.normal(size=(6, 6))
    V = A.dot(A.T)+r.choice([.5, 5.])*np.eye(6)
    V *= 10**r.choice([0., r.uniform(-6, 10)])
    return [float(V[i, j]) for i in range(6) for j in range(i, 6)]


def source(mon, gc_, gp, dc_, dp, dev, det):
    """lune coordinates: dev is the relative deviatoric size"""
    gc_, gp, dc_, dp = [np.asarray(x, dtype=float).reshape(-1) for x in (gc_, gp, dc_, dp)]
    with np.errstate(all='ignore'):
        tg = 1e-12+2e-14/np.maximum(dev, 1e-300)
        # the lune latitude by an arc function of a ratio: a square root of rounding at the poles
        td = np.minimum(1e-7, 1e-13+1e-14/np.maximum(dev, 1e-300))
        ok = (np.abs(gc_-gp) <= tg+2e-8*(np.abs(np.abs(gp)-np.pi/6) < 1e-6)) | (tg > 1e-3)
    mon.check(ok.all(), 'lune_longitude', n=ok.size, compiled=gc_[~ok], python=gp[~ok], **det)
    ok = np.abs(dc_-dp) <= td
    mon.check(ok.all(), 'lune_latitude', n=ok.size, compiled=dc_[~ok], python=dp[~ok], **det)


def output(mon, c, p, M, det, stat):
    n = M.shape[1]
    if not mon.check(set(c) == set(p) and all(np.shape(c[k]) == np.shape(p[k]) == (n,) for k in p), 'output_shape', compiled={k: np.shape(v) for k, v in c.items()}, python={k: np.shape(v) for k, v in p.items()}, **det):
        return
    w = np.linalg.eigvalsh(tt.m33(M))[:, ::-1].T
    dev = np.sqrt(((w-w.mean(0))**2).sum(0))
    source(mon, c['g'], p['g'], c['d'], p['d'], dev, det)
    mon.close(c['u'], p['u'], 'hudson_u', rtol=0, atol=1e-11, **det)
    mon.close(c['v'], p['v'], 'hudson_v', rtol=0, atol=1e-11, **det)
    gap = np.minimum(w[0]-w[1], w[1]-w[2])
    good = gap > 1e-6
    if not good.any():
        return
    tol = (1e-7+1e-12/np.maximum(gap, 1e-300))[good]
    rad = np.pi/180
    P = {who: [np.array([q[k+'%d' % i][good] for k in 'SDR'])*rad for i in (1, 2)] for who, q in (('c', c), ('p', p))}
    v = {who: [tt.sdr_vectors(*x) for x in X] for who, X in P.items()}

    def matches(i, j):
        (a, b), (x, y) = v['c'][i], v['p'][j]
        e = np.maximum(np.abs(a-x).max(0), np.abs(b-y).max(0))
        f = np.maximum(np.abs(a+x).max(0), np.abs(b+y).max(0))
        vert = np.abs(P['p'][j][1]-np.pi/2) < 1e-5
        return (e <= 10*tol) | vert & (f <= 10*tol)
    straight, crossed = matches(0, 0) & matches(1, 1), matches(0, 1) & matches(1, 0)
    ok = straight | crossed
    i = np.where(good)[0][~ok][:2]
    mon.check(ok.all(), 'nodal_planes', n=ok.size, compiled=[{k: c[k][q] for k in c} for q in i], python=[{k: p[k][q] for k in p} for q in i], **det)
    both = straight & crossed
    stat['straight'].append(int((straight & ~both).sum()))
    stat['planes'].append(int((ok & ~both).sum()))
    # angles in their ranges: compare directly what is generic
    for i in (0, 1):
        for j in (0, 1):
            q = (straight if i == j else crossed & ~straight) & (P['p'][j][1] > 1e-2) & (P['p'][j][1] < np.pi/2-1e-2) & (tol < 1e-5)
            if q.any():
                plane(mon, 'nodal_plane_angles', P['c'][i][:, q], P['p'][j][:, q], det, tol[q])
    # Tape orientation, where which plane it describes does not depend on rounding
    s = p['s'][good]
    q = (np.abs(np.abs(s)-np.pi/2) > 1e-5) & (p['h'][good] > 1e-9) & (p['h'][good] < 1-1e-9) & (tol < 1e-4)
    other = np.array([np.abs(np.abs(P['p'][i][2])-np.pi/2) > 1e-5 for i in (0, 1)]).all(0)
    q &= other
    if q.any():
        a, b = [np.array([x['k'][good][q], np.arccos(np.clip(x['h'][good][q], -1, 1)), x['s'][good][q]]) for x in (c, p)]
        plane(mon, 'tape_orientation', a, b, det, 10*tol[q])


def biaxes(mon, a, b, m, c, det):
    if not mon.check(len(a) == len(b) == 3 and all(shape_of(x) == shape_of(y) for x, y in zip(a, b)), 'biaxes_shape', compiled=[np.shape(x) for x in a], python=[np.shape(x) for x in b], **det):
        return
    T = tt.c_tensor(c)
    s = np.abs(T).max()
    cond = np.linalg.cond(tt.mandel(T))
    if cond > 1e6:
        return
    m = np.asarray(m).reshape(6, -1)
    ea, eb = [np.asarray(x[1], dtype=float).reshape(-1) for x in (a, b)]
    iso = abs(c[0]-c[1]-2*c[15]) < 1e-9*s and max(abs(c[3]), abs(c[16])) < 1e-9*s and abs(c[0]-c[6]) < 1e-9*s
    # in an anisotropic medium the explosion is the root found by an iteration, to its tolerance
    rel = 1e-10*cond if iso else 1e-5*cond
    ok = np.abs(ea-eb) <= rel*(1+np.abs(eb))
    mon.check(ok.all(), 'biaxes_explosion', n=ok.size, compiled=ea[~ok], python=eb[~ok], **det)
    da, db = [np.asarray(x[2], dtype=float).reshape(-1) for x in (a, b)]
    ok = np.abs(da-db) <= rel*(np.abs(db)+1/s)
    mon.check(ok.all(), 'biaxes_area_displacement', n=ok.size, compiled=da[~ok], python=db[~ok], **det)
    pa, pb = [np.asarray(x[0], dtype=float).reshape(-1, 3, 2) for x in (a, b)]
    for k in range(len(pb)):
        # one vector each way round, each up to sign
        u = np.abs(pa[k].T.dot(pb[k]))
        if np.isnan(pa[k]).any() or np.isnan(pb[k]).any():
            mon.check(np.isnan(pa[k]).any() == np.isnan(pb[k]).any(), 'biaxes_vectors', compiled=pa[k], python=pb[k], **det)
            continue
        D = T.reshape(9, 9)
        X = np.linalg.solve(tt.mandel(T), mandel6(m[:, k]-eb[k]*np.array([1, 1, 1, 0, 0, 0])))
        w = np.linalg.eigvalsh(unmandel(X))
        gap = min(w[1]-w[0], w[2]-w[1])/max(np.abs(w).max(), 1e-300)
        size = np.abs(np.linalg.solve(tt.mandel(T), mandel6(m[:, k]))).max()
        if gap < 1e-3 or np.abs(w).max() < 1e-5*size:
            mon.event('biaxes_degenerate')
            continue
        best = max(min(u[0, 0], u[1, 1]), min(u[0, 1], u[1, 0]))
        mon.check(best > 1-1e-6, 'biaxes_vectors', compiled=pa[k], python=pb[k], **det)


def mandel6(m):
    # six-vector xx yy zz xy xz yz (scaled by root two) in the order of vpm.tensors.mandel: xx yy zz yz xz xy
    m = np.asarray(m, dtype=float)
    return np.array([m[0], m[1], m[2], m[5], m[4], m[3]])


def unmandel(x):
    q = np.sqrt(2)
    return np.array([[x[0], x[5]/q, x[4]/q], [x[5]/q, x[1], x[3]/q], [x[4]/q, x[3]/q, x[2]]])


def conversions(mon):
    pr = Pair(mon)
    stat = dict(axis=[], axes=[], straight=[], planes=[])
    for it in range(mon.n(1200 if mon.flavour == 'san' else 6000, 60000)):
        gen_conversion(mon.rng, pr, mon, stat)
    pr.flush()
    # the sign of an eigenvector is rounding's choice, but not against the other path's every time
    for x, n, rule in (('axis', 'axes', 'axes_point_the_same_way'), ('straight', 'planes', 'planes_come_in_the_same_order')):
        N = sum(stat[n])
        if N > 200:
            mon.check(sum(stat[x]) > .15*N, rule, same=sum(stat[x]), of=N)
            mon.notes.append('%s: %d of %d' % (rule, sum(stat[x]), N))


def random_sources(mon):
    r = mon.rng
    pr = Pair(mon)
    N = mon.n(40000, 200000)
    for kind in ('mt', 'dc', 'clvd'):
        for via, per in (('direct', 10000), ('sample', 5000), ('iteration', 4000), ('events', 3000)):
            cache = {}

            def data(scale):
                if scale not in cache:
                    out = []
                    for side in (0, 1):
                        ms, k = [], 0
                        while k < N*scale:
                            if side:
                                st, x = pr.right.ask('random', kind, via, per)
                            else:
                                st, x = evaluate(('random', (kind, via, per)))
                            if not mon.check(st == 'ok' and x.ndim == 2 and x.shape == (6, per*(3 if via == 'events' else 1)), 'generator_answers', got=x if st != 'ok' else x.shape, side=side, kind=kind, via=via):
                                raise harness.CodeRaised('generator')
                            ms.append(x)
                            k += x.shape[1]
                        out.append(np.concatenate(ms, 1))
                    cache[scale] = out
                    mon.cases(out[0][:, :5000])
                    mon.event('sources_drawn', out[0].shape[1]+out[1].shape[1])
                return cache[scale]
            W6 = r.normal(size=(6, 6))

            def test(rule, f):
                p_confirm(mon, rule, lambda s: float(f(*data(s))), kind=kind, via=via)
            for i in range(6):
                test('same_component_distribution', lambda a, b: stats.ks_2samp(a[i], b[i]).pvalue)
                test('same_linear_functional', lambda a, b: stats.ks_2samp(W6[i].dot(a), W6[i].dot(b)).pvalue)
                test('same_quadratic_functional', lambda a, b: stats.ks_2samp(W6[i].dot(a)*W6[i-1].dot(a), W6[i].dot(b)*W6[i-1].dot(b)).pvalue)
            for j in range(3):
                test('same_eigenvalue_distribution', lambda a, b: ks_ties(*[np.linalg.eigvalsh(tt.m33(q))[:, j] for q in (a, b)]))
            for lag in (1, 2):
                test('same_dependence', lambda a, b: stats.ks_2samp((a[:, lag:]*a[:, :-lag]).sum(0)[::2], (b[:, lag:]*b[:, :-lag]).sum(0)[::2]).pvalue)
            test('same_norm', lambda a, b: float(max(np.abs(np.sqrt((q*q).sum(0))-1).max() for q in (a, b)) < 1e-9))


def ks_ties(a, b):
    """two samples that may be concentrated on a few values to rounding"""
    return stats.ks_2samp(np.round(a, 8), np.round(b, 8)).pvalue


CONFS = [dict(events=n, trans=t, dc=d, tries=12, sampling_prior=pr) for n in (1, 2, 3) for t, d in ((False, False), (False, True), (True, False)) for pr in ('uniform_prior', 'flat_prior')]


def mcmc_scene(r, conf):
    import c05
    n, trans = conf['events'], conf['trans']
    dcp = .35 if trans else .5
    dcs = [True if conf['dc'] else bool(trans and r.random() < .5) for _ in range(n)]
    w = c05.scene(r, n, trans, conf['sampling_prior'], dcs, [dcp]*n)
    xs = [mcmc.state(r, d) for d in dcs]
    c05.sane(r, xs, w, trans)
    return n, trans, dcp, dcs, w, xs


def confs():
    import c05
    out = []
    for c in CONFS:
        for pr in c05.PRIORS:
            q = dict(c, sampling_prior=pr)
            if q['trans']:
                q['dc_prior'] = .35
            if q not in out:
                out.append(q)
    return out


def gen_chain(r, pr, mon, cs):
    import c05
    conf = cs[int(r.integers(len(cs)))]
    n, trans, dcp, dcs, w, xs = mcmc_scene(r, conf)
    if r.random() < .25:
        pr.add('state', (conf, xs, w), nearby('tensor_of_a_state', 1e-12, np.tile(tensor_rounding([x['h'] for x in xs]), 6)), dict(conf=conf, x=xs))
        mon.case((np.array([x[k] for x in xs for k in mcmc.KEYS]), repr(conf)))
        return
    m = int(r.integers(1, 5))
    l0 = float(r.normal()*30) if r.random() < .92 else -INF
    cands, ls, acc, kinds = [], [], [], []
    for j in range(m):
        ys, lr, kk = c05.candidate(r, xs, w, trans, dcs, conf['sampling_prior'], [dcp]*n)
        p = r.random()
        if p < .12 or not math.isfinite(lr):
            l1 = -INF
        elif l0 == -INF:
            l1 = float(r.normal())
        else:
            l1 = l0-lr+(float(r.uniform(.001, 5)) if p < .25 else math.log(r.uniform(.02, .98)))
        a = mcmc.accept(lr, l1, l0)
        if math.isnan(a):
            l1, a = -INF, 0.
        cands.append(ys)
        ls.append(l1)
        acc.append(a)
        kinds.append(kk)
    us = set([1e-12, 1-1e-9, float(r.random())])
    for a in acc:
        if 0 < a < 1:
            us.update([a*(1-1e-6), min(1-1e-9, a*(1+1e-6))])
    # a decision that rounding of the ratio could take either way is left out
    us = sorted(u for u in us if not any(0 < a < 1 and abs(u-a) < 2e-7*a for a in acc))
    jumps = [any(k != 'shift' for k in kk) for kk in kinds]
    det = dict(conf=conf, x=xs, cands=cands, ls=ls, l0=l0, w=w, us=us, kinds=kinds)

    def judge(mon, c, p, det):
        for u, x, y in zip(us, c, p):
            mon.check(x[0] == y[0], 'chain_takes_the_same_decision', u=u, compiled=x[0], python=y[0], ratios=acc, **det)
            if x[0] == y[0]:
                mon.check(x[1] == y[1], 'chain_holds_the_same_likelihood', u=u, compiled=x[1], python=y[1], **det)
            mon.event('moves' if y[0] >= 0 else 'stays')
    pr.add('decide', (conf, xs, w, l0, cands, ls, us, jumps), judge, det)
    for kk in kinds:
        for k in kk:
            mon.event('proposal_'+k)
    mon.case((np.array([x[k] for x in xs for k in mcmc.KEYS]+[q for q in ls if q > -INF]), repr(conf)), sample=dict(conf=conf, tried=m, kinds=kinds[0]))


def chains(mon):
    r = mon.rng
    pr = Pair(mon)
    cs = confs()
    for it in range(mon.n(700 if mon.flavour == 'san' else 2000, 25000)):
        gen_chain(r, pr, mon, cs)
    pr.flush()


def proposals(mon):
    r = mon.rng
    pr = Pair(mon)
    cs = confs()
    for it in range(mon.n(18, 150)):
        conf = dict(cs[it % len(cs)], tries=250)
        if conf['trans']:
            conf.update(dimension_jump_prob=float(r.choice([.2, .5, .8])), dc_sigma_g=float(10**r.uniform(-1, .3)), dc_sigma_d=float(10**r.uniform(-1, .3)))
        n, trans, dcp, dcs, w, xs = mcmc_scene(r, conf)
        xs = [mcmc.state(r, mcmc.is_dc(x), mode=str(r.choice(['plain', 'edge']))) for x in xs]
        w = [mcmc.widths(r, hostile=False) for _ in xs]
        if trans:
            w = [dict(q, gamma_dc=conf['dc_sigma_g'], delta_dc=conf['dc_sigma_d']) for q in w]
        det = dict(conf=conf, x=xs, w=w)
        cache = {}

        def sample(scale):
            if scale not in cache:
                ab = pr.both('propose', conf, xs, w, 1500*scale)
                if ab is None:
                    raise harness.CodeRaised('propose')
                cache[scale] = ab
            return cache[scale]
        for e in range(n):
            for who in (0, 1):
                x, m, _ = sample(1)[who]
                # the tensor that is evaluated is the tensor of the proposed state
                mon.close(m[e], tt.tape_tensor(*x[e].T), 'proposed_tensor_is_that_of_the_state', rtol=0, atol=1e-9, who=who, **det)
            for j, k in enumerate(mcmc.KEYS):
                def test(scale):
                    a, b = [q[0][e] for q in sample(scale)]
                    a, b = a[:, j], b[:, j]
                    if k == 'kappa':
                        a, b = [(q-xs[e]['kappa']+np.pi) % (2*np.pi) for q in (a, b)]
                    if len(np.unique(a)) == len(np.unique(b)) == 1:
                        return float(abs(a[0]-b[0]) < 1e-12)
                    return float(stats.ks_2samp(a, b).pvalue)
                p_confirm(mon, 'same_proposals', test, key=k, event=e, **det)

            def joint(scale):
                ps = []
                for a in range(5):
                    for b in range(a):
                        x, y = [q[0][e] for q in sample(scale)]
                        x, y = [(q[:, a]-np.median(x[:, a]))*(q[:, b]-np.median(x[:, b])) for q in (x, y)]
                        if np.ptp(x) > 0 and np.ptp(y) > 0:
                            ps.append(stats.ks_2samp(x, y).pvalue)
                return min(1., min(ps)*len(ps)) if ps else 1.
            p_confirm(mon, 'same_dependence_of_proposed_parameters', joint, event=e, **det)
        mon.event('proposals', sum(len(q[0][0])*n for ab in cache.values() for q in ab))
        mon.case((np.array([x[k] for x in xs for k in mcmc.KEYS]), repr(conf)), sample=dict(conf=conf, x=xs))


def gen_binning(r, pr, mon):
    d = c18.draw(r)
    f = c18.scratch('t%d.scatangle' % mon.shard)
    c18.write(r, d, f)
    with open(f, newline='') as o:
        text = o.read()
    size = float(r.choice([d['bin'], d['bin'], d['bin'], 720.]))
    samples = [s for _, s in d['samples']]
    if not d['exact']:
        # a difference that is half a bin to rounding
        for i in range(len(samples)):
            for j in range(i):
                q = c18.differences(samples[i], samples[j])
                if q is not None and min(abs(x-size/2) for x in q) < 1e-9*size:
                    return
    det = dict(samples=len(samples), stations=d['stations'], size=size, exact=d['exact'], order=d['style'])

    def judge(mon, c, p, det):
        if not mon.check(len(c[0]) == len(p[0]) and len(c[1]) == len(p[1]), 'same_number_of_bins', compiled=[len(x) for x in c], python=[len(x) for x in p], **det):
            return
        mon.check(c[0] == p[0], 'same_binned_records', n=max(1, len(c[0])), **det)
        mon.close(c[1], p[1], 'same_binned_weights', rtol=1e-12, **det)
        mon.event('bins', len(p[0]))
        mon.event('merged', len(samples)-len(p[0]))
    pr.add('scatangle', (text, 0, size), judge, det)
    mon.case((text, size), sample=det)


def scatter(mon):
    pr = Pair(mon)
    for it in range(mon.n(250 if mon.flavour == 'san' else 700, 9000)):
        gen_binning(mon.rng, pr, mon)
    pr.flush()


def gen_coefficients(r, pr, mon):
    L = int(r.choice([1, 2, 3, 8, 40]))
    k = int(r.integers(1, L+1))
    which = r.integers(L, size=L) % k
    eps = float(r.choice([.25, .5, 1e-3, 2.]))
    step = eps*r.choice([0., .25, .75, 1.5])
    exact = True

    def block(u):
        base = np.round(r.normal(size=(u, k, 6))*8)*eps
        a = base[:, which, :]
        return a+step*r.integers(-1, 2, a.shape)*(r.random(a.shape) < .1)

    use = r.integers(1, 8)
    a = block(int(r.integers(1, 5))) if use & 1 else False
    a1, a2 = False, False
    if use & 2:
        u = int(r.integers(1, 5))
        a1, a2 = block(u), block(u)
    ap = block(int(r.integers(1, 5))) if use & 4 and not use & 1 else False
    if all(isinstance(x, bool) for x in (a, a1, ap)):
        a = block(2)
    w = [float(x) for x in 2.**r.permutation(L)] if r.random() < .7 else [int(x) for x in r.integers(1, 9, L)]
    ext = {} if r.random() < .6 else {'other': {'a_x': r.normal(size=(2, L, 6)), 'b': [1, 2, 3]}}
    det = dict(a=a, a1=a1, a2=a2, ap=ap, weights=w, epsilon=eps)
    parts = [x for x in (a, a1, a2, ap) if not isinstance(x, bool)]

    def close(i, j):
        return all((np.abs(x[:, i]-x[:, j]) < eps).all() for x in parts)
    # greedy, in order: what both are documented to do
    left, want = list(range(L)), []
    while left:
        i = left[0]
        mem = [j for j in left if j == i or close(i, j)]
        want.append((i, sum(w[j] for j in mem)))
        left = [j for j in left if j not in mem]

    def judge(mon, c, p, det):
        for who, q in (('compiled', c), ('python', p)):
            mon.close(sum(q[5]), sum(w), 'coefficient_binning_keeps_the_weight', rtol=1e-12, who=who, **det)
        if not mon.check(len(c[5]) == len(p[5]), 'coefficient_binning_same_number', compiled=len(c[5]), python=len(p[5]), **det):
            return
        mon.close(c[5], p[5], 'coefficient_binning_same_weights', rtol=1e-12, **det)
        for i in range(4):
            x, y = c[i], p[i]
            mon.check(isinstance(x, bool) == isinstance(y, bool) and (isinstance(x, bool) or np.array_equal(x, y)), 'coefficient_binning_same_samples', which=i, compiled=np.shape(x), python=np.shape(y), **det)
        mon.check(c[4].keys() == p[4].keys() and all(np.array_equal(c[4][q][z], p[4][q][z]) for q in c[4] for z in c[4][q]), 'coefficient_binning_same_samples', which='extension', **det)
        mon.check(len(p[5]) == len(want) and all(abs(x-y[1]) < 1e-9*y[1] for x, y in zip(p[5], want)), 'coefficient_binning_merges_what_is_within_epsilon', got=p[5], want=want, **det)
        mon.event('coefficients_merged', L-len(p[5]))
    pr.add('bin_coefficients', (a, a1, a2, ap, w, ext, eps), judge, det)
    mon.case([np.concatenate([x.reshape(-1) for x in parts]), repr(w), eps], sample=dict(samples=L, epsilon=eps, types=int(use)))


def coefficients(mon):
    pr = Pair(mon)
    for it in range(mon.n(800, 9000)):
        gen_coefficients(mon.rng, pr, mon)
    pr.flush()


def gen_inversion(r, pr, mon, it):
    keys, model, e, loc, table, w = c01.scene(r, 5)
    data = copy.deepcopy(e.data)
    data['UID'] = 'ev'
    scat = None
    if loc is not None:
        scat = (loc, w if w else [1.]*len(loc))
    options = dict(dc=bool(r.random() < .4), max_samples=int(r.choice([40, 200])), number_samples=int(r.choice([7, 50])))
    binned = scat is not None and r.random() < .4
    if binned:
        # a bin so narrow that only identical samples share one
        options['bin_angle_coefficient_samples'] = 1e-7
    seed = int(r.integers(2**31))
    det = dict(keys=keys, data=data, location=loc, weights=w, options=options)

    def judge(mon, c, p, det):
        a, b = c, p
        mon.check(a['n'] == b['n'], 'inversion_tries_the_same_number', compiled=a['n'], python=b['n'], **det)
        x, y = [{np.ascontiguousarray(q['mt'][:, j]).tobytes(): q['ln'][:, j] for j in range(q['mt'].shape[1])} for q in (a, b)]
        M = {k: np.frombuffer(k) for k in set(x) | set(y)}
        if not M:
            return
        ks = sorted(M)
        lo, hi = c01.expected(e.obs, table, scat and scat[1], np.array([M[k] for k in ks]).T)
        for i, k in enumerate(ks):
            if (k in x) != (k in y):
                mon.check(np.isneginf(lo[:, i]).any() or (lo[:, i] < -690).any(), 'inversion_stores_the_same_sources', in_compiled=k in x, in_python=k in y, **det)
                continue
            compare(mon, 'inversion_result', x[k], y[k], lo[:, i], hi[:, i], det)
        mon.event('stored_sources', len(ks))
        if set(x) != set(y):
            return
        resolved = (np.isfinite(lo) & (hi-lo < 1e-6)).all()
        if resolved:
            for k in ('ln_bayesian_evidence', 'dkl'):
                if mon.check((k in a['out']) == (k in b['out']), 'inversion_reports_the_same', key=k, **det) and k in a['out']:
                    mon.close(a['out'][k], b['out'][k], 'inversion_'+k, rtol=1e-6, atol=2e-6, **det)
    pr.add('inversion', (data, scat, seed, options), judge, det)
    mon.event('binned_inversions', int(bool(binned)))
    mon.case([repr(data), repr(loc), repr(w), seed], sample=dict(keys=keys, options=options, location_samples=0 if loc is None else len(loc)))


def inversions(mon):
    pr = Pair(mon)
    for it in range(mon.n(120, 1200)):
        gen_inversion(mon.rng, pr, mon, it)
    pr.flush()


def partial(mon):
    """trees where only some of the extensions are there"""
    r = mon.rng
    full = os.path.join(root(), 'c')
    sets = [[x] for x in EXT]+[[y for y in EXT if y != x] for x in EXT]
    if mon.tier == 'thorough':
        sets += [[a, b] for i, a in enumerate(EXT) for b in EXT[:i]]
    for i, keep in enumerate(sets):
        base = os.path.join(os.environ['VPM_WORK'], 'part%d' % i)

        def ignore(d, names):
            rel = os.path.relpath(d, os.path.join(full, 'MTfit'))
            return [n for n in names if n.endswith(('.c', '.pyc')) or n == '__pycache__' or n == 'tests'
                    or n.endswith('.so') and os.path.normpath(os.path.join(rel, n.split('.')[0])) not in keep]
        shutil.copytree(os.path.join(full, 'MTfit'), os.path.join(base, 'MTfit'), ignore=ignore)
        left = Peer(base)
        st, have = left.ask('extensions')
        # the module of the chain needs another one: without it the fallback is the right choice
        if st != 'ok' or not set(have) <= set(keep) or set(keep)-set(have)-{'algorithms/cmarkov_chain_monte_carlo'} or len(have) < len(keep) and set(EXT[:2]) <= set(keep):
            raise OSError('extensions present: %r, wanted: %r' % (have, keep))
        mon.event('extensions_present', len(have))
        pr = Pair(mon, left)
        stat = dict(axis=[], axes=[], straight=[], planes=[])
        cs = [c for c in confs() if c['events'] < 3]
        for it in range(mon.n(60, 500)):
            gen_likelihood(r, pr, mon)
            gen_task(r, pr, mon)
            gen_reduction(r, pr, mon)
            gen_conversion(r, pr, mon, stat)
            gen_chain(r, pr, mon, cs)
            if it % 3 == 0:
                gen_joint(r, pr, mon)
                gen_binning(r, pr, mon)
                gen_coefficients(r, pr, mon)
            if it % 12 == 0:
                gen_inversion(r, pr, mon, it)
        pr.flush()
        mon.event('configurations')
        mon.notes.append('with only '+', '.join(x.split('/')[1] for x in have))
        left.p.kill()
        pr.right.p.kill()
        shutil.rmtree(base, ignore_errors=True)


P = ['py']
WORKLOADS = {
    'likelihoods': dict(fn=likelihoods, flavours=['c', 'san'], peers=P, shards={'quick': 1, 'thorough': 3}, need={'polarity_likelihood': 1000, 'polarity_probability_likelihood': 1000, 'amplitude_ratio_likelihood': 1000, 'relative_likelihood': 500, 'resolved': 5000}),
    'tasks': dict(fn=tasks, flavours=['c', 'san'], peers=P, shards={'quick': 2, 'thorough': 4}, need={'combined_likelihood': 1000, 'joint_likelihood': 100, 'resolved': 2000, 'location_weighted': 100}),
    'generated': dict(fn=generated, flavours=['c'], peers=P, shards={'thorough': 2}, need={'generated_sources': 1000}),
    'reductions': dict(fn=reductions, flavours=['c', 'san'], peers=P, shards={'quick': 1, 'thorough': 3}, need={'marginalised': 500, 'normalised': 500, 'dkl': 300, 'dkl_estimate': 200}),
    'conversions': dict(fn=conversions, flavours=['c', 'san'], peers=P, shards={'quick': 2, 'thorough': 4}, need={'eigenvalues': 500, 'lune_longitude': 500, 'axes_to_plane': 300, 'auxiliary_plane': 300, 'tape_tensor': 500, 'nodal_planes': 1000, 'tape_orientation': 300, 'biaxes_vectors': 100, 'potency': 100}),
    'random_sources': dict(fn=random_sources, flavours=['c'], peers=P, shards={'thorough': 2}, need={'same_component_distribution': 60, 'same_eigenvalue_distribution': 30}, weight=3),
    'chains': dict(fn=chains, flavours=['c', 'san'], peers=P, shards={'quick': 2, 'thorough': 4}, need={'chain_takes_the_same_decision': 1000, 'moves': 200, 'stays': 200, 'tensor_of_a_state': 500, 'proposal_up': 30, 'proposal_down': 30}, weight=2),
    'proposals': dict(fn=proposals, flavours=['c'], peers=P, shards={'quick': 2, 'thorough': 3}, need={'same_proposals': 80}, weight=4, timeout={'quick': 300, 'thorough': 840}),
    'scatter': dict(fn=scatter, flavours=['c', 'san'], peers=P, shards={'quick': 1, 'thorough': 3}, need={'same_binned_records': 500, 'merged': 200}),
    'coefficients': dict(fn=coefficients, flavours=['c', 'san'], peers=P, need={'coefficient_binning_same_weights': 300, 'coefficients_merged': 200}),
    'inversions': dict(fn=inversions, flavours=['c'], peers=P, shards={'quick': 2, 'thorough': 3}, need={'inversion_result': 500, 'resolved': 200, 'binned_inversions': 5}),
    'partial': dict(fn=partial, flavours=['c'], peers=P, need={'configurations': 8}, weight=5, timeout={'quick': 300, 'thorough': 840}),
}

if __name__ == '__main__':
    if '--serve' in sys.argv:
        serve()
    harness.main('C20', __file__, WORKLOADS, rule='an observation is one input given to a routine with the compiled extensions and without them; distinct by content',
                 assumptions=['an answer that rounding does not determine (a probability within rounding of zero, the sign of an eigenvector, the axes of a repeated eigenvalue, a difference of half a bin to rounding) may differ',
                              'one try of the fallback chain corresponds to one of the tries of the compiled multiple-try chain, taken in order',
                              'inputs on which both paths raise are not decided here'])
