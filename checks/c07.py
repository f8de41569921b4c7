"""C07: a Markov-chain run returns a correctly counted chain that samples the posterior.

Whole runs are driven with scripted accept/reject histories and with real likelihoods; what the run returns is compared
with an independent counting model, its own entries, and importance-weighted prior samples; runs requested through the
inversion front end are watched in the same way."""
import contextlib
import copy
import gc
import io
import itertools
import math
import os
import shutil
import sys
import tempfile
import time
import numpy as np
from scipy import stats
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vpm import harness, mcmc, tensors, events as ev
from vpm.harness import p_confirm
from vpm.mcmc import make, f, G, D, PI, KEYS

INF = math.inf


def quiet():
    """the code under test collects garbage on every iteration; scipy's frozen norm is the same function, faster"""
    from scipy import special
    gc.collect(); gc.freeze(); gc.disable()
    gc.collect = lambda *a: 0
    c = 1/math.sqrt(2*PI)
    stats.norm.cdf = lambda x, loc=0, scale=1: special.ndtr((np.asarray(x)-loc)/scale)
    stats.norm.pdf = lambda x, loc=0, scale=1: c*np.exp(-.5*((np.asarray(x)-loc)/scale)**2)/scale


def dc_like(m):
    """which columns are double-couples"""
    m = np.asarray(m, dtype=float).reshape(6, -1)
    M = np.array(tensors.m33(m)).reshape(-1, 3, 3) if m.shape[1] else np.zeros((0, 3, 3))
    return (np.abs(m[:3].sum(0)) < 1e-9) & (np.abs(np.linalg.det(M)) < 1e-9)


def spaces(out, n):
    return [np.asarray(out['moment_tensor_space' if n == 1 else 'moment_tensor_space_%d' % (i+1)], dtype=float) for i in range(n)]


def consistent(mon, out, n, chain_length, batch, dc, trans, dropped, /, **det):
    """what holds for the output of every run by itself"""
    keys = ['probability', 'ln_pdf', 'total_number_samples', 'accepted', 'acceptance_rate']
    if not mon.check(isinstance(out, dict) and all(k in out for k in keys), 'output_reports_everything', got=sorted(out) if isinstance(out, dict) else repr(out)[:200], **det):
        return None
    ms = spaces(out, n)
    ln = np.asarray(out['ln_pdf'], dtype=float).reshape(-1)
    p = np.asarray(out['probability'], dtype=float).reshape(-1)
    N, acc = out['total_number_samples'], out['accepted']
    k = len(ln)
    if not mon.check(all(m.shape == (6, k) for m in ms) and p.shape == (k,), 'entries_and_values_match', shapes=[m.shape for m in ms], ln=k, p=p.shape, **det):
        return None
    mon.event('entries', k)
    mon.check(k == N+1-dropped, 'one_entry_per_tried_proposal_and_one_extra', entries=k, tried=N, dropped=dropped, **det)
    mon.check(N >= chain_length and N < chain_length+max(batch, 1), 'stops_at_the_chain_length', tried=N, chain_length=chain_length, batch=batch, **det)
    mon.check(0 <= acc <= N, 'accepted_count', accepted=acc, tried=N, **det)
    mon.check(N == 0 or abs(out['acceptance_rate']-acc/float(N)) < 1e-12, 'acceptance_rate', got=out['acceptance_rate'], accepted=acc, tried=N, **det)
    mm = np.concatenate(ms)
    mon.check((np.abs((mm.reshape(n, 6, k)**2).sum(1)-1) < 1e-8).all(), 'unit_norm_entries', **det)
    if k > 1:
        new = (mm[:, 1:] != mm[:, :-1]).any(0)
        if not dropped:
            mon.check(not new[0], 'first_recorded_state_is_held', first=mm[:, 0], second=mm[:, 1], **det)
        mon.check(int(new.sum()) <= acc <= int(new.sum())+1, 'accepted_consistent_with_entries', accepted=acc, moves=int(new.sum()), **det)
        mon.check((ln[1:][~new] == ln[:-1][~new]).all(), 'a_held_state_keeps_its_likelihood', **det)
        mon.event('moves', int(new.sum()))
        mon.event('holds', int((~new).sum()))
    if k and (np.isfinite(p).all() or det.get('normalise', True)):
        w = np.exp(ln-ln.max())
        q = p/p.max() if p.max() > 0 else p
        mon.check(np.abs(q-w).max() < 1e-9, 'probability_is_the_normalised_likelihood', worst=float(np.abs(q-w).max()), **det)
    d = [dc_like(m) for m in ms]
    if dc and not trans:
        mon.check(all(x.all() for x in d), 'constrained_run_is_double_couple', n=k*n, **det)
    if trans:
        if mon.check('pDC' in out, 'pdc_is_reported', **det) and not dropped:
            got = out['pDC'] if n > 1 else [out['pDC']]
            mon.close([f(x) for x in got], [x.mean() for x in d], 'pdc_is_the_share_of_entries', rtol=0, atol=1e-9, **det)
            mon.event('double_couple_entries', sum(int(x.sum()) for x in d))
            mon.event('tensor_entries', sum(int((~x).sum()) for x in d))
    return ms, ln


class Model(object):
    """the counting model"""
    def __init__(self, learning, chain, start):
        self.learning, self.chain = learning, chain
        self.nlearn, self.cur, self.ln = 0, start, -INF
        self.entries, self.tried, self.accepted = [], 0, 0

    def over(self):
        return self.tried >= self.chain and self.nlearn >= self.learning

    def propose(self, t, ln, acc):
        if acc:
            self.cur, self.ln = t, ln
        if self.nlearn < self.learning:
            self.nlearn += acc
            return
        self.accepted += acc
        self.entries.append((self.cur, self.ln))
        if not self.tried:
            self.entries.append((self.cur, self.ln))
        self.tried += 1


def columns(mts, n):
    a = [np.asarray(m, dtype=float).reshape(6, -1) for m in (mts if n > 1 else [mts])]
    return np.concatenate(a)


def result(ln, mts, n):
    return {'ln_pdf': np.asarray(ln, dtype=float).reshape(1, -1), 'moment_tensors': mts, 'n': np.size(ln)}


def scripted(mon, history, n, trans, dc, tries, learning, window, chain, start_zero=False, style=0, **kw):
    """one run whose every decision is forced by the likelihoods it is given"""
    r = mon.rng
    det = dict(history=history[:60], events=n, trans=trans, dc=dc, tries=tries, learning=learning, window=window, chain=chain, start_zero=start_zero, conf=kw)
    alg = mon.call('constructor_answers', make, n, trans=trans, dc=dc, tries=tries, learning_length=learning, acceptance_rate_window=window, chain_length=chain, **kw)
    mts, end = mon.call('initialise_answers', alg.initialise)
    start = columns(mts, n)[:, 0]
    mo = Model(learning, chain, start)
    it = iter(history)
    L, first, biggest, learned = 0., True, 1, None
    for step in range(5000):
        if end:
            break
        c = columns(mts, n)
        m = c.shape[1]
        biggest = max(biggest, m)
        ln = np.empty(m)
        acc = []
        for j in range(m):
            if first:
                a = not start_zero
            else:
                a = next(it, True) if not any(acc) else bool(r.integers(2))
            acc.append(bool(a))
            if a:
                ln[j] = L+3000.*(1+.1*r.random()) if style == 0 or not mo.tried else L+3000.
            else:
                ln[j] = -INF if r.random() < .6 or start_zero and mo.ln == -INF else L-3000.*(1+r.random())
        for j in range(m):
            mo.propose(c[:, j], ln[j], acc[j])
            if acc[j]:
                L = ln[j]
                break
        first = False
        mts, end = mon.call('iterate_answers', alg.iterate, result(ln, mts, n))
        mon.event('iterations')
        if mo.nlearn >= learning and mo.tried > 1:
            al = copy.deepcopy(getattr(alg, 'alpha', None))
            if learned is not None:
                mon.check(al == learned, 'widths_are_fixed_after_learning', before=learned, after=al, **det)
            learned = al
        if not mon.check(bool(end) == mo.over(), 'stops_at_the_chain_length', end=end, tried=mo.tried, learned=mo.nlearn, **det):
            return
    out, text = mon.call('output_answers', alg.output, det.setdefault('normalise', bool(r.integers(2))), False, 0)
    want = [e for e in mo.entries if e[1] > -INF]
    dropped = len(mo.entries)-len(want)
    mon.event('zero_likelihood_entries', dropped)
    if not want:
        mon.check(not len(np.asarray(out.get('probability', [])).reshape(-1)), 'nothing_recorded_without_likelihood', **det)
        return
    got = consistent(mon, out, n, chain, biggest, dc, trans, dropped, **det)
    if got is None:
        return
    ms, ln = got
    mm = np.concatenate(ms)
    mon.check(out['total_number_samples'] == mo.tried, 'tried_count', got=out['total_number_samples'], want=mo.tried, **det)
    mon.check(out['accepted'] == mo.accepted, 'accepted_count', got=out['accepted'], want=mo.accepted, **det)
    if mon.check(mm.shape[1] == len(want), 'entry_count', got=mm.shape[1], want=len(want), **det):
        w = np.array([e[0] for e in want]).T
        mon.check(np.abs(mm-w).max() < 1e-9, 'entries_are_the_reached_states', n=len(want), first_bad=int(np.argmax(np.abs(mm-w).max(0) > 1e-9)), **det)
        mon.check(np.array_equal(ln, [e[1] for e in want]), 'entries_carry_their_likelihood', n=len(want), got=ln[:6], want=[e[1] for e in want][:6], **det)


def exhaustive(mon):
    """every accept/reject history up to a length"""
    quiet()
    H = mon.n(6, 9)
    k = 0
    for learning, chain in itertools.product([0, 1, 2, 3], [1, 2, 3, 5] if mon.tier == 'quick' else [1, 2, 3, 5, 8]):
        for h in itertools.product([True, False], repeat=H):
            k += 1
            trans, dc = [(False, False), (False, True), (True, False)][k % 3]
            tries = [0, 0, 3][k % 3] if mon.flavour == 'c' else 0
            scripted(mon, list(h), 1, trans, dc, tries, learning, [1, 2, 3, 50][k % 4], chain, **({'dimension_jump_prob': .5} if trans else {}))
            mon.case((h, learning, chain), sample=dict(history=h, learning=learning, chain=chain))


def histories(mon):
    quiet()
    r = mon.rng
    for i in range(mon.n(220, 2500)):
        n = int(r.choice([1, 1, 1, 2, 3]))
        trans, dc = [(False, False), (False, True), (True, False)][i % 3]
        tries = int(r.choice([0, 2, 5, 12]))
        learning = int(r.choice([0, 1, 2, 5, 20]))
        window = int(r.choice([1, 2, 5, 10, 1000]))
        chain = int(r.choice([1, 2, 3, 7, 20, 60]))
        rate = float(r.choice([.05, .3, .5, .9, r.random()]))
        kw = {}
        if trans:
            kw = dict(dimension_jump_prob=float(r.choice([.01, .3, 1.])), dc_prior=float(r.uniform(.05, .95)))
        h = list(r.random(400) < rate)
        scripted(mon, [bool(x) for x in h], n, trans, dc, tries, learning, window, chain, start_zero=bool(r.random() < .15), style=int(r.integers(2)), **kw)
        mon.case((i, n, tries, learning, window, chain, tuple(h[:30])), sample=dict(events=n, tries=tries, learning=learning, window=window, chain=chain, rate=rate))


def zero_start(mon):
    """a chain started where the likelihood is zero finds the states where it is not, and then runs as any other"""
    r = mon.rng
    quiet()
    for i in range(mon.n(24, 200)):
        n = [1, 1, 2][i % 3]
        trans, dc = [(False, False), (False, True), (True, False)][(i//3) % 3]
        tries = int(r.choice([0, 0, 10]))
        window, learning, chain = int(r.choice([5, 20])), int(r.choice([1, 10])), int(r.choice([20, 60]))
        det = dict(events=n, trans=trans, dc=dc, tries=tries, learning=learning, window=window, chain=chain)
        alg = mon.call('constructor_answers', make, n, trans=trans, dc=dc, tries=tries, learning_length=learning, acceptance_rate_window=window, chain_length=chain)
        mts, end = mon.call('initialise_answers', alg.initialise)
        start = columns(mts, n)[:, 0]
        # a few widths away
        cut = float(r.uniform(.35, .6)) if n == 1 else float(r.uniform(.3, .4))
        limit, step = 30000, 0
        while not end and step < limit:
            c = columns(mts, n)
            dist = 1-np.abs((c*start[:, None]).sum(0))/n
            ln = np.where(dist > cut, 0., -INF)
            mts, end = mon.call('iterate_answers', alg.iterate, result(ln, mts, n))
            step += 1
        mon.event('steps_from_a_zero_start', step)
        if not mon.check(end, 'leaves_a_start_of_zero_likelihood', steps=step, cut=cut, **det):
            continue
        out, _ = mon.call('output_answers', alg.output, False)
        consistent(mon, out, n, chain, INF, dc, trans, 0, **dict(det, normalise=False))
        mon.case((i, n, tries, learning, window, chain, cut), sample=det)


def grid(mon):
    """the chain starts at the best of at least the requested number of random samples"""
    quiet()
    r = mon.rng
    for i in range(mon.n(150, 1500)):
        n = int(r.choice([1, 1, 2, 3]))
        trans, dc = [(False, False), (False, True), (True, False)][i % 3]
        tries = int(r.choice([0, 5, 30]))
        mn = int(r.choice([1, 5, 40, 200]))
        empty = int(r.choice([0, 0, 1, 3]))     # batches without any likelihood
        form = str(r.choice(['joint', 'separate'])) if n > 1 else 'joint'
        det = dict(events=n, trans=trans, dc=dc, tries=tries, minimum=mn, empty=empty, form=form)
        alg = mon.call('constructor_answers', make, n, trans=trans, dc=dc, tries=tries, initial_sample='grid', min_number_initialisation_samples=mn, learning_length=3, acceptance_rate_window=5, chain_length=10)
        mts, end = mon.call('initialise_answers', alg.initialise)
        seen, best, bestv, b = 0, [None]*n, [-INF]*n, 0
        for step in range(600):
            c = [np.asarray(m, dtype=float).reshape(6, -1) for m in (mts if n > 1 else [mts])]
            m = c[0].shape[1]
            if dc:
                mon.check(all(dc_like(x).all() for x in c), 'constrained_run_is_double_couple', step=step, **det)
            if form == 'joint' and n == 1:
                ln = r.normal(size=(1, m))*30
                ln[r.random((1, m)) < .5] = -INF
                if b < empty:
                    ln[:] = -INF
                if r.random() < .2 and m > 1:
                    ln[0, r.integers(m)] = ln.max()
                res = result(ln, mts, n)
                lns = [ln]
            else:
                lns = []
                for e in range(n):
                    ln = r.normal(size=(1, m))*30
                    ln[r.random((1, m)) < .5] = -INF
                    if b < empty and e == b % n:
                        ln[:] = -INF
                    lns.append(ln)
                res = [{'ln_pdf': lns[e], 'moment_tensors': mts[e], 'n': m} for e in range(n)]
            for e in range(n):
                if lns[e].max() > bestv[e]:
                    bestv[e] = lns[e].max()
                    best[e] = c[e][:, lns[e].reshape(-1) == bestv[e]]
                elif lns[e].max() == bestv[e] and bestv[e] > -INF:
                    best[e] = np.concatenate([best[e], c[e][:, lns[e].reshape(-1) == bestv[e]]], 1)
            seen += m
            b += 1
            nxt, end = mon.call('iterate_answers', alg.iterate, res)
            mon.check(not end, 'initialisation_does_not_end_the_run', **det)
            d = [np.asarray(q, dtype=float).reshape(6, -1) for q in (nxt if n > 1 else [nxt])]
            hit = d[0].shape[1] == 1 and all(v > -INF for v in bestv)
            ok = hit and all((np.abs(best[e]-d[e]).max(0) < 1e-6).any() or not np.isfinite(bestv[e]) for e in range(n))
            if d[0].shape[1] == 1 and m > 1:
                mon.check(ok, 'starts_at_the_best_sample', seen=seen, best=bestv, start=[x[:, 0] for x in d], want=[None if x is None else x[:, :2] for x in best], **det)
                mon.check(seen >= mn, 'enough_initial_samples', seen=seen, **det)
                mon.event('grid_starts')
                break
            if m == 1:
                break
            mts = nxt
        else:
            mon.check(False, 'initialisation_finishes', seen=seen, **det)
        # the initial state is always the first state of the run
        mts, end = mon.call('iterate_answers', alg.iterate, result([-3.], nxt, n))
        mon.case((i, n, mn, empty, tries), sample=det)


# -- posterior expectations
def ln_phi(x):
    from scipy import special
    return special.log_ndtr(x)


def target(r, name, n, dc):
    """ln likelihood of (6, N) tensors (list of them for several events); some give zero probability"""
    if name == 'flat':
        return lambda m: np.zeros(m[0].shape[1])
    if name == 'broad':
        A = r.normal(size=(3, 6))
        return lambda m: -.5*((A.dot(m[0])/1.2)**2).sum(0)+(0 if n == 1 else -.5*((A.dot(m[1])-A.dot(m[0]))**2).sum(0))
    if name == 'cut':
        a, b = r.normal(size=6), r.normal(size=(2, 6))
        a[:3] -= a[:3].mean()
        return lambda m: np.where(a.dot(m[0])/np.sqrt(a.dot(a)) < -.5, -INF, ln_phi(b.dot(m[0])/1.5).sum(0))
    x = {'gamma': 0. if dc else r.uniform(-.25, .25), 'delta': 0. if dc else r.uniform(-.6, .6), 'kappa': r.uniform(0, 2*PI), 'h': r.uniform(.4, .75), 'sigma': r.uniform(-.8, .8)}
    m0 = tensors.tape_tensor(*[np.array([x[k]]) for k in KEYS])
    s = .25 if name == 'peaked' else .5
    return lambda m: -.5*((m[0]-m0)**2).sum(0)/s**2


def functionals(m, ln):
    """(J, N) of one event"""
    q = np.sqrt(2)
    tr = m[:3].sum(0)/math.sqrt(3)
    M = np.array(tensors.m33(m)).reshape(-1, 3, 3)
    return np.vstack([m, m*m, tr*tr, np.linalg.det(M), m[0]*m[1], m[3]*m[4], m[2]*m[5], np.maximum(ln, -50)])


def prior_samples(r, n, N, dc, kind):
    out = []
    for e in range(n):
        if dc:
            p = [np.zeros(N), np.zeros(N)]
        elif kind == 'flat_prior':
            p = [r.uniform(-G, G, N), r.uniform(-D, D, N)]
        else:
            x = r.normal(size=(6, N))
            out.append(x/np.sqrt((x*x).sum(0)))
            continue
        x = tensors.tape_tensor(p[0], p[1], r.uniform(0, 2*PI, N), r.uniform(0, 1, N), r.uniform(-D, D, N))
        out.append(x/np.sqrt((x*x).sum(0)))
    return out


def reference(r, fn, n, dc, kind, N, chunks=6):
    """per event: sums of w, w g, and influence variance for self-normalised averages; with the evidence"""
    W, parts = [], []
    for _ in range(chunks):
        ms = prior_samples(r, n, N//chunks, dc, kind)
        ln = fn(ms)
        w = np.exp(ln)
        keep = w > w.max()*1e-9 if w.max() > 0 else w > 1
        W.append((w.sum(), (w*w).sum(), w.size))
        parts.append((w[keep], [functionals(m[:, keep], ln[keep]) for m in ms]))
    w = np.concatenate([p[0] for p in parts])
    g = [np.concatenate([p[1][e] for p in parts], 1) for e in range(n)]
    return w, g, sum(x[2] for x in W)


def prior_mass(mon):
    """the integral over the lune of the prior density the chain uses, (gamma, delta) at fixed orientation"""
    from MTfit.algorithms import markov_chain_monte_carlo as M
    g = (np.arange(200)+.5)/200*2*G-G
    d = (np.arange(400)+.5)/400*2*D-D
    out = {}
    for kind in ('uniform_prior', 'flat_prior'):
        p = getattr(M, kind)
        fg = np.array([f(p({'gamma': x, 'delta': .3, 'kappa': 1., 'h': .5, 'sigma': .2})) for x in g])
        fd = np.array([f(p({'gamma': .1, 'delta': x, 'kappa': 1., 'h': .5, 'sigma': .2})) for x in d])
        at = f(p({'gamma': .1, 'delta': .3, 'kappa': 1., 'h': .5, 'sigma': .2}))
        probe = f(p({'gamma': -.3, 'delta': -.7, 'kappa': 4., 'h': .1, 'sigma': 1.}))
        gi = [np.interp(-.3, g, fg), np.interp(-.7, d, fd)]
        mon.check(abs(probe-gi[0]*gi[1]/at) < 1e-3*probe, 'prior_factorises', probe=probe, want=gi[0]*gi[1]/at)
        out[kind] = fg.mean()*2*G*fd.mean()*2*D/at
    return out


def mass(mon):
    m = prior_mass(mon)
    u = m['uniform_prior']
    mon.check(abs(u-1) < 2e-3, 'tensor_prior_integrates_to_one', kf='uniform-prior-mass' if abs(u-1.10452) < 2e-4 else None, integral=u)
    mon.check(abs(m['flat_prior']-1) < 2e-3, 'tensor_prior_integrates_to_one', integral=m['flat_prior'])
    mon.case(('mass', u))
    mon.event('prior_integrals', 2)


def run_chain(mon, fn, n, trans, dc, tries, chain, learning, kind, det, /, **kw):
    alg = make(n, trans=trans, dc=dc, tries=tries, learning_length=learning, acceptance_rate_window=50, chain_length=chain, sampling_prior=kind, **kw)
    mts, end = alg.initialise()
    biggest = 1
    for step in range(60*chain+100000):
        if end:
            break
        c = [np.asarray(m, dtype=float).reshape(6, -1) for m in (mts if n > 1 else [mts])]
        ln = fn(c)
        if getattr(alg, '_initialising', False):    # as the inversion asks
            res = [{'ln_pdf': fn([m]*n)[None], 'moment_tensors': m, 'n': m.shape[1]} for m in c] if n > 1 else result(ln, mts, n)
        else:
            biggest = max(biggest, c[0].shape[1])
            res = result(ln, mts, n)
        mts, end = mon.call('iterate_answers', alg.iterate, res)
    out, text = mon.call('output_answers', alg.output, True, False, 0)
    mon.event('chain_iterations', step)
    got = consistent(mon, out, n, chain, biggest, dc, trans, 0, **det)
    if got is None:
        return None
    ms, ln = got
    want = fn(ms)
    mon.check(np.abs(want-ln).max() < 1e-7, 'entries_carry_their_likelihood', n=len(ln), worst=float(np.abs(want-ln).max()), **det)
    mon.event('chains')
    return out, ms, ln


def agree(vals, refs, ses):
    """p-value that chain averages (K, J) have the reference expectations"""
    K = len(vals)
    mean, var = vals.mean(0), vals.var(0, ddof=1)/K
    with np.errstate(all='ignore'):
        t = np.abs(mean-refs)/np.sqrt(var+ses**2+1e-18)
    p = 2*stats.t.sf(t, K-1)
    return min(1., float(np.nanmin(p))*len(p))


CONFIGS = [
    # name, events, trans, dc, tries, prior, initial sample
    ('flat', 1, False, False, 30, 'uniform_prior', ''),
    ('flat', 1, False, True, 30, 'uniform_prior', 'grid'),
    ('flat', 1, True, False, 30, 'uniform_prior', ''),
    ('flat', 1, True, False, 30, 'flat_prior', 'grid'),
    ('broad', 1, False, False, 30, 'flat_prior', 'grid'),
    ('broad', 1, False, False, 0, 'uniform_prior', 'grid'),
    ('broad', 1, True, False, 30, 'uniform_prior', 'grid'),
    ('broad', 1, True, False, 0, 'uniform_prior', ''),
    ('broad', 2, False, False, 30, 'uniform_prior', ''),
    ('broad', 2, True, False, 30, 'uniform_prior', 'grid'),
    ('cut', 1, False, False, 30, 'uniform_prior', 'grid'),
    ('cut', 1, False, True, 30, 'uniform_prior', ''),
    ('cut', 1, True, False, 30, 'uniform_prior', 'grid'),
    ('peaked', 1, False, False, 60, 'uniform_prior', 'grid'),
    ('peaked', 1, False, True, 60, 'uniform_prior', 'grid'),
    ('medium', 1, True, False, 30, 'uniform_prior', 'grid'),
    ('medium', 1, False, False, 0, 'flat_prior', 'grid'),
    ('medium', 1, False, True, 0, 'uniform_prior', ''),
]


def posterior(mon):
    quiet()
    r = mon.rng
    S = {'quick': 4, 'thorough': 4}[mon.tier]
    scale_up = mon.n(1, 4)
    masses = prior_mass(mon)
    for i, (name, n, trans, dc, tries, kind, init) in enumerate(CONFIGS):
        if i % S != mon.shard % S:
            continue
        if mon.flavour == 'py':
            if n > 1 or i in (1, 3, 4, 10):
                continue
            tries = 0 if i % 2 else tries
        slow = not tries or mon.flavour == 'py'
        chain, K = (900 if slow else 2600), (10 if slow else 14)*scale_up
        learning = 150 if slow else 400
        fn = target(r, name, n, dc)
        kw = dict(initial_sample=init, min_number_initialisation_samples=200)
        dcp = .5
        if trans:
            dcp = float(r.choice([.3, .5, .6]))
            kw.update(dimension_jump_prob=float(r.choice([.3, .5])), dc_prior=dcp)
        N = {'quick': 600000, 'thorough': 3000000}[mon.tier] if name == 'peaked' else 240000
        det = dict(target=name, events=n, trans=trans, dc=dc, tries=tries, prior=kind, init=init, chain=chain, conf=kw)
        # reference over the model space
        refs = []
        models = [(True,)*n] if dc else list(itertools.product([False, True], repeat=n)) if trans else [(False,)*n]
        tot, acc, dcm = 0., None, np.zeros(n)
        W, Gs, flags = [], [], []
        for mo in models:
            pw = 1.
            for x in mo:
                pw *= (dcp if x else (1-dcp)*masses[kind]) if trans else 1.
            if n == 1:
                w, g, c = reference(r, fn, 1, mo[0], kind, N)
            else:
                parts = [prior_samples(r, 1, N//4, x, kind)[0] for x in mo]
                ln = fn(parts)
                w, g, c = np.exp(ln), [functionals(m, ln) for m in parts], N//4
            W.append(w*pw/c)
            Gs.append([np.vstack([g[e], np.full(w.size, float(mo[e]))]) for e in range(n)])
        W = np.concatenate(W)
        Gs = [np.concatenate([q[e] for q in Gs], 1) for e in range(n)]
        Z = W.sum()
        W = W/Z
        ref = np.concatenate([(W*g).sum(1) for g in Gs])
        se = np.sqrt(np.concatenate([((W*(g-(W*g).sum(1)[:, None]))**2).sum(1) for g in Gs]))
        mon.event('reference_effective_samples', int(1/(W*W).sum()))

        def test(scale):
            vals = []
            for k in range(K*scale):
                got = run_chain(mon, fn, n, trans, dc, tries, chain, learning, kind, det, **kw)
                if got is None:
                    return 1.
                out, ms, ln = got
                vals.append(np.concatenate([np.concatenate([functionals(m, ln).mean(1), [dc_like(m).mean()]]) for m in ms]))
            vals = np.array(vals)
            p = agree(vals, ref, se)
            mon.event('p_below_.05', int(p < .05))
            mon.event('comparisons', ref.size)
            if p < 1e-3:
                mon.notes.append(repr((det, p, ref, vals.mean(0), vals.std(0)/math.sqrt(len(vals)))))
            return p
        p_confirm(mon, 'expectations_of_the_posterior', test, **det)
        mon.case((name, n, trans, dc, tries, kind, init, i), sample=det)


# -- through the inversion
def mild(r, evs):
    """observation errors under which no source is impossible to working precision"""
    for e in evs:
        for key, d in e.data.items():
            if 'polarity' in key.lower():
                d['Error'] = np.maximum(d['Error'], .05)
        for o in e.obs:
            if o['kind'] == 'pol':
                o['s'] = max(o['s'], .05)


def single_scene(r, loc=True):
    keys = []
    if r.random() < .8:
        keys += [str(k) for k in r.permutation(ev.POL)[:r.integers(1, 3)]]
    if r.random() < .5 or not keys:
        keys += [str(k) for k in r.permutation(ev.RATIO)[:r.integers(1, 3)]]
    model = r.normal(size=6)
    model /= np.sqrt((model**2).sum())
    e = ev.make(r, keys, nmax=5, model=model, sigma0=False, min_err=.1)
    mild(r, [e])
    return e


class Recorder(object):
    """stands in for the output writer of an inversion: keeps what it is given"""
    def __init__(self, inv):
        self.got = []
        inv.output = self

    def __call__(self, event_data, fid='', output_data=False, *a, **k):
        self.got.append((event_data, fid, output_data))


def front(mon, data, algorithm, **kw):
    from MTfit.inversion import Inversion
    inv = mon.call('front_end', Inversion, data, algorithm=algorithm, phy_mem=.5, convert=False, **kw)
    rec = Recorder(inv)
    with contextlib.redirect_stdout(io.StringIO()):
        mon.call('front_end', inv.forward)
    return inv, rec.got


def inside_expected(mon, ms, ln, lo, hi, rule, det):
    from vpm import likelihood as lk
    ok = lk.inside(ln.reshape(1, -1), lo, hi)
    mon.event('front_end_resolved', int((np.isfinite(lo) & (hi-lo < 1e-3)).sum()))
    mon.check(ok.all(), rule, n=len(ln), got=ln[~ok.reshape(-1)][:3], lo=lo[~ok][:3], hi=hi[~ok][:3], **det)


def frontend(mon):
    """runs requested through the inversion: single and several events, location samples, pools, joint inversions"""
    import c01
    import c15
    r = mon.rng
    quiet()
    cwd = os.getcwd()
    t0 = time.time()
    for it in range(mon.n(60, 500)):
        if time.time()-t0 > (150 if mon.tier == 'quick' else 600):
            break
        algorithm = ['mcmc', 'transdmcmc', 'mcmc'][it % 3]
        dc = it % 3 == 2
        joint = it % 5 == 3
        pool = it % 10 == 4
        trans = algorithm == 'transdmcmc'
        chain, learning, tries = int(r.choice([20, 60, 150])), int(r.choice([1, 5, 30])), int(r.choice([3, 20, 100]))
        opts = dict(chain_length=chain, learning_length=learning, acceptance_rate_window=int(r.choice([2, 10, 40])), min_number_initialisation_samples=int(r.choice([10, 200])),
                    number_samples=tries, initial_sample=str(r.choice(['grid', 'grid', ''])), dc=dc)
        if trans:
            opts.update(dimension_jump_prob=float(r.choice([.05, .4])), dc_prior=float(r.choice([.3, .5])))
        k = 1 if not (joint or it % 2) else int(r.choice([2, 3]))
        L, mini, relative = 1, 2, False
        if joint:
            while True:
                evs, relative, overlap, ak = c15.scene(r, ne=k if k > 1 else 2, relative=bool(r.random() < .6), front=True)
                # no source excluded by the data, and an absolute type for each event
                if all(any(o['kind'] in ('pol', 'ratio') for o in e.obs) and all(o['kind'] != 'prob' for o in e.obs) for e in evs):
                    break
            k = len(evs)
            mild(r, evs)
            for e in evs:
                for o in e.obs:
                    if o['kind'] in ('ratio', 'amp'):
                        q = e.data[o['key']]
                        # broad enough for a chain to move
                        q['Error'] = np.maximum(q['Error'], .5*np.abs(q['Measured']))
                        for p in ('p', 'p1', 'p2'):
                            if p in o:
                                o[p] = max(o[p], .5)
            opts.update(multiple_events=True, relative_amplitude=relative, minimum_number_intersections=mini)
        else:
            evs = [single_scene(r) for _ in range(k)]
        locs, tables, w = [None]*k, [None]*k, False
        tmp = tempfile.mkdtemp(prefix='vpm_c07_')
        try:
            os.chdir(tmp)
            if r.random() < .4 and not (joint and relative):     # refused explicitly for joint chains with relative amplitudes
                L = int(r.choice([2, 3]))
                w = [1.]*L if joint or r.random() < .4 else [float(x) for x in r.uniform(.2, 3, L)]
                paths = []
                for i, e in enumerate(evs):
                    locs[i], tables[i] = ev.location_records(r, e.net, L, spread=float(r.choice([1., 10.])))
                    paths.append(os.path.join(tmp, 'l%d.scatangle' % i))
                    c01.write_scat(paths[-1], locs[i], w)
                opts['location_pdf_file_path'] = paths if k > 1 else paths[0]
            data = []
            for i, e in enumerate(evs):
                q = copy.deepcopy(e.data)
                q['UID'] = 'ev%d_%d' % (it, i)
                data.append(q)
            det = dict(data=data, locations=locs, weights=w, algorithm=algorithm, options=repr({a: b for a, b in opts.items() if 'path' not in a}), joint=joint, pool=pool)
            inv, got = front(mon, copy.deepcopy(data) if k > 1 else copy.deepcopy(data[0]), algorithm, parallel=pool, n=2 if pool else 0, path=tmp, **opts)
            want = 1 if joint else k
            mon.case([repr(data), algorithm, repr(opts.get('dc')), it], sample=dict(events=k, joint=joint, pool=pool, algorithm=algorithm, dc=dc, locations=L, chain=chain, learning=learning, tries=tries))
            if not mon.check(len(got) == want, 'every_event_gives_a_result', got=len(got), want=want, **det):
                continue
            mon.event('front_end_joint', int(joint))
            mon.event('front_end_pool', int(pool))
            for q, fid, out in got:
                n = k if joint else 1
                res = consistent(mon, out, n, chain, INF, dc, trans, 0, **det)
                if res is None:
                    continue
                mon.event('front_end_chains')
                ms, ln = res
                if joint:
                    u = np.unique(np.concatenate(ms), axis=1, return_index=True)[1][:25]
                    alts, scales, npair = c15.expect(mon, evs, tables, w, [np.ascontiguousarray(m[:, u]) for m in ms], relative, mini, L, True)
                    from vpm import likelihood as lk
                    mon.check(any(lk.inside(ln[u].reshape(1, -1), a[0], a[1]).all() for a in alts), 'entries_carry_their_likelihood', n=len(u), got=ln[u][:3], lo=alts[0][0][:, :3], hi=alts[0][1][:, :3], **det)
                    continue
                i = [x['UID'] for x in data].index(q['UID'])
                lo, hi = c01.expected(evs[i].obs, tables[i], w, ms[0])
                inside_expected(mon, ms, ln, lo, hi, 'entries_carry_their_likelihood', det)
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)


def agreement(mon):
    """chains and weighted random samples of the same data, both through the inversion"""
    import c01
    r = mon.rng
    quiet()
    cwd = os.getcwd()
    for it in range(mon.n(3, 10)):
        e = single_scene(r)
        for o in e.obs:      # broad enough to be sampled at random
            if o['kind'] == 'pol':
                o['s'] = max(o['s'], .3)
        for key, d in e.data.items():
            if 'polarity' in key.lower():
                d['Error'] = np.maximum(d['Error'], .3)
            else:
                d['Error'] = np.maximum(d['Error'], .5*np.abs(d['Measured']))
        dc = bool((it+mon.shard) % 2)
        tmp = tempfile.mkdtemp(prefix='vpm_c07_')
        opts = {}
        try:
            os.chdir(tmp)
            if r.random() < .6:
                locs, table = ev.location_records(r, e.net, 3, spread=20.)
                c01.write_scat(os.path.join(tmp, 'l.scatangle'), locs, [float(x) for x in r.uniform(.2, 3, 3)])
                opts['location_pdf_file_path'] = os.path.join(tmp, 'l.scatangle')
            data = copy.deepcopy(e.data)
            data['UID'] = 'e'
            det = dict(data=data, options=repr(opts), dc=dc)
            inv, got = front(mon, copy.deepcopy(data), 'iterate', parallel=False, path=tmp, dc=dc, max_samples=120000, number_samples=20000, **opts)
            v, m, n = c01.store(mon, inv)
            if v.shape[0] != 1 or v.size < 100:
                continue
            ln = v[0]
            w = np.exp(ln-ln.max())
            w /= w.sum()
            ess = 1/(w*w).sum()
            mon.event('reference_effective_samples', int(ess))
            if ess < 1000:
                continue
            g = functionals(m, ln)
            ref = (w*g).sum(1)
            se = np.sqrt(((w*(g-ref[:, None]))**2).sum(1))
            K = 10

            def test(scale):
                many = []
                for i in range(K*scale):
                    q = copy.deepcopy(data)
                    q['UID'] = 'e%d' % i
                    many.append(q)
                o = dict(opts)
                if o:
                    o['location_pdf_file_path'] = [opts['location_pdf_file_path']]*len(many)
                inv, got = front(mon, many, 'mcmc', parallel=False, path=tmp, dc=dc, chain_length=1500, learning_length=200, acceptance_rate_window=40, min_number_initialisation_samples=100,
                                 number_samples=50, initial_sample='grid', **o)
                if not mon.check(len(got) == len(many), 'every_event_gives_a_result', got=len(got), want=len(many), **det):
                    return 1.
                vals = []
                for q, fid, out in got:
                    res = consistent(mon, out, 1, 1500, INF, dc, False, 0, **det)
                    if res is None:
                        return 1.
                    vals.append(functionals(res[0][0], res[1]).mean(1))
                mon.event('chains', len(vals))
                p = agree(np.array(vals), ref, se)
                mon.event('p_below_.05', int(p < .05))
                if p < 1e-3:
                    mon.notes.append(repr((p, ref, np.mean(vals, 0), np.std(vals, 0)/math.sqrt(len(vals)))))
                return p
            p_confirm(mon, 'chain_and_random_sampling_agree', test, **det)
            mon.case([repr(data), repr(opts), dc], sample=dict(dc=dc, stations=len(e.obs), locations=bool(opts)))
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)


WORKLOADS = {
    'frontend': dict(fn=frontend, shards={'quick': 1, 'thorough': 2}, need={'front_end_chains': 40, 'entries_carry_their_likelihood': 500, 'front_end_joint': 5, 'front_end_pool': 3}, timeout={'quick': 400, 'thorough': 860}, hang='violation', weight=2),
    'agreement': dict(fn=agreement, flavours=['c'], shards={'quick': 2, 'thorough': 4}, need={'chain_and_random_sampling_agree': 1}, timeout={'quick': 400, 'thorough': 860}, weight=2),
    'exhaustive': dict(fn=exhaustive, shards={'quick': 1, 'thorough': 2}, need={'entries_are_the_reached_states': 1000}, timeout={'quick': 300, 'thorough': 840}, hang='violation'),
    'histories': dict(fn=histories, flavours=['py', 'c', 'san'], shards={'quick': 1, 'thorough': 2}, need={'entries_are_the_reached_states': 500, 'pdc_is_the_share_of_entries': 30}, timeout={'quick': 300, 'thorough': 840}, hang='violation'),
    'zero_start': dict(fn=zero_start, timeout={'quick': 400, 'thorough': 860}, need={'leaves_a_start_of_zero_likelihood': 20}, hang='violation'),
    'grid': dict(fn=grid, shards={'quick': 1, 'thorough': 2}, need={'grid_starts': 50}, timeout={'quick': 300, 'thorough': 840}, hang='violation'),
    'mass': dict(fn=mass, flavours=['c']),
    'posterior': dict(fn=posterior, shards={'quick': 4, 'thorough': 4}, need={'comparisons': 20, 'chains': 20}, timeout={'quick': 400, 'thorough': 860}, hang='violation'),
}

if __name__ == '__main__':
    harness.main('C07', __file__, WORKLOADS,
                 rule='one case = one run with its accept/reject history, one initialisation, or one posterior with its set of chains; all are non-trivial',
                 assumptions=['a multiple-try run stops at the end of the batch in which the chain length is reached',
                              'states of zero likelihood (held only when there is no learning period) are not recorded',
                              'with gaussian_jump_params=False the known finding of C05 applies and posteriors are not compared'])
