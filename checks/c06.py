"""C06: Markov-chain proposals stay in the source domain and follow the proposal density; width adaptation stays bounded.

Every proposed state and its converted moment tensor is watched on generated, boundary and scripted-draw situations; the
draws of fixed states are compared with the truncated Gaussians by two-stage tests; the widths are watched through
scripted learning histories."""
import copy
import gc
import math
import os
import sys
import numpy as np
from scipy import stats
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vpm import harness, mcmc, tensors
from vpm.harness import p_confirm
from vpm.mcmc import make, state, widths, set_widths, is_dc, f, G, D, PI, KEYS

INF = math.inf
B = dict(mcmc.BOUNDS)


class Randn(object):
    """stands in for numpy.random.randn: scripted values first, then the real generator"""
    def __init__(self, script):
        self.script, self.used = list(script), 0

    def __call__(self, *shape):
        if self.script and (not shape or int(np.prod(shape)) == 1):
            self.used += 1
            v = self.script.pop(0)
            return np.full(shape, v) if shape else v
        return self.real(*shape)

    def __enter__(self):
        self.real = np.random.randn
        np.random.randn = self
        return self

    def __exit__(self, *a):
        np.random.randn = self.real


def events_of(alg, mts):
    """(states, tensors) per event of the last proposal"""
    n = alg.number_events
    xs = alg.xi_1 if n > 1 else [alg.xi_1]
    ms = mts if n > 1 else [mts]
    out = []
    for x, m in zip(xs, ms):
        x = x if isinstance(x, list) else [x]
        m = np.asarray(m, dtype=float)
        out.append(([{k: f(v) for k, v in q.items()} for q in x], m.reshape(6, -1)))
    return out


def watch(mon, alg, mts, cur, constrained, dim_jump, /, **det):
    """the domain monitor. cur: current state per event"""
    for e, (xs, m) in enumerate(events_of(alg, mts)):
        if not mon.check(m.shape[1] == len(xs), 'one_tensor_per_proposed_state', tensors=m.shape, states=len(xs), **det):
            return
        v = np.array([[q[k] for k in KEYS] for q in xs])
        n = len(xs)
        mon.check(np.isfinite(v).all(), 'domain', n=n, bad=v[~np.isfinite(v).all(1)][:2], **det)
        for i, k in enumerate(KEYS):
            lo, hi = B.get(k, (0, 2*PI))
            ok = (v[:, i] >= lo) & ((v[:, i] <= hi) if k in B else (v[:, i] < hi))
            mon.check(ok.all(), 'domain', n=n, key=k, bad=v[~ok][:2], **det)
        nn = np.sqrt((m*m).sum(0))
        mon.check((np.abs(nn-1) < 1e-9).all(), 'unit_norm', n=n, worst=float(np.abs(nn-1).max()) if n else 0, **det)
        want = tensors.tape_tensor(*v.T)
        want = want/np.sqrt((want*want).sum(0))
        mon.check(np.abs(m-want).max() < 1e-8 if m.shape == want.shape else False, 'tensor_of_exactly_the_proposed_state', n=n, got=m[:, :2], want=want[:, :2], **det)
        c = cur[e]
        dc_now = is_dc(c)
        dcs = np.array([q['gamma'] == 0 and q['delta'] == 0 for q in xs])
        if constrained:
            mon.check(dcs.all(), 'constrained_chain_proposes_double_couples', n=n, bad=[q for q, d in zip(xs, dcs) if not d][:2], **det)
        elif not dim_jump:
            mon.check((dcs == dc_now).all(), 'no_model_change_without_a_jump', n=n, **det)
        else:
            for q, d in zip(xs, dcs):
                same = all(q[k] == f(c[k]) for k in ('kappa', 'h', 'sigma'))
                if d != dc_now:
                    mon.check(same, 'jump_keeps_strike_dip_and_slip', frm=c, got=q, **det)
                    mon.event('jump_down' if d else 'jump_up')
                else:
                    mon.event('no_jump')
                    mon.check(not same or det.get('scripted'), 'a_proposal_is_a_move', frm=c, got=q, **det)
        if dcs.any():
            d = m[:, dcs]
            tr = np.abs(d[:3].sum(0)).max()
            M = tensors.m33(d)
            M = np.array(M).reshape(-1, 3, 3)
            det3 = np.abs(np.linalg.det(M)).max()
            mon.check(tr < 1e-9 and det3 < 1e-9, 'double_couple_tensor', trace=tr, determinant=det3, **det)
        mon.event('proposed_states', n)


def build(r, n, trans, dc, tries, hostile=True):
    kw = {}
    if trans:
        kw = dict(dimension_jump_prob=float(r.choice([0., .2, .5, 1.])), gaussian_jump_params=bool(r.random() < .8))
        if r.random() < .6:
            kw.update(dc_sigma_g=float(10**r.uniform(-2, .3)), dc_sigma_d=float(10**r.uniform(-2, .3)))
    alg = make(n, trans=trans, dc=dc, tries=tries, **kw)
    return alg, kw


def place(alg, xs, r=None):
    xs = [dict(x) for x in xs]
    if r is not None and r.random() < .3:
        for x in xs:
            for k in x:
                if not (k in ('gamma', 'delta') and x[k] == 0):
                    x[k] = np.array([x[k]])
    dcs = [is_dc(x) for x in xs]
    if alg.number_events > 1:
        alg.xi, alg.dc = xs, dcs
    else:
        alg.xi, alg.dc = xs[0], dcs[0]
    alg.ln_likelihood_xi = 0.


def give_widths(alg, r, hostile=True):
    """new widths, keeping those of the balancing draw"""
    al = alg.alpha if alg.number_events > 1 else [alg.alpha]
    out = []
    for a in al:
        a = dict(a)
        a.update(widths(r, hostile=hostile))
        out.append(a)
    alg.alpha = out if alg.number_events > 1 else out[0]


def domain(mon):
    gc.collect(); gc.freeze()
    r = mon.rng
    confs = [(n, t, dc, tr) for n in (1, 2, 3) for t in (0, 1, 7, 100) for dc, tr in ((False, False), (True, False), (False, True))]
    N = mon.n(2200 if mon.flavour == 'c' else 1500, 16000)
    for i in range(N):
        n, tries, dc, trans = confs[i % len(confs)]
        if i < len(confs) or i % 5 == 0 or True:
            alg, kw = build(r, n, trans, dc, tries)
            if tries > 1:
                alg.min_acceptance_rate = 1./tries
                alg._number_samples = tries
        give_widths(alg, r)
        xs = [state(r, dc or (trans and r.random() < .5)) for _ in range(n)]
        if trans and r.random() < .3:
            for x in xs:
                if is_dc(x):
                    x['g0'], x['d0'] = .2, -.4     # reached by a jump
        place(alg, xs, r)
        det = dict(cur=xs, events=n, tries=tries, trans=trans, dc=dc, conf=kw, widths=alg.alpha)
        script = []
        p = r.random()
        if p < .5:
            # scripted draws that land on, next to or beyond a bound, wrap the strike, or vanish
            w = alg.alpha[0] if n > 1 else alg.alpha
            x = xs[0]
            for k in (['kappa', 'h', 'sigma'] if is_dc(x) else ['gamma', 'delta', 'kappa', 'h', 'sigma']):
                lo, hi = B.get(k, (0, 2*PI))
                t = r.choice(['lo', 'hi', 'lo-', 'hi+', 'far', '0', 'ord', 'eps'])
                val = {'lo': lo, 'hi': hi, 'lo-': np.nextafter(lo, -9), 'hi+': np.nextafter(hi, 9), 'far': hi+37.*(hi-lo), '0': x[k], 'ord': None, 'eps': lo-1e-17}[t]
                z = (val-x[k])/w[k] if val is not None else float(r.normal())
                script.append(z)
                if t in ('lo-', 'hi+', 'far', 'eps') and k != 'kappa':
                    script.append(float(r.normal())*.5)
        det['scripted'] = bool(script)
        with Randn(script) as s:
            mts = mon.call('new_sample_answers', alg.new_sample)
        mon.event('scripted_draws', s.used)
        watch(mon, alg, mts, xs, dc, trans, **det)
        after = alg.xi if n > 1 else [alg.xi]
        mon.check(all(f(after[e][k]) == xs[e][k] for e in range(n) for k in KEYS), 'current_state_unchanged_by_proposing', **det)
        mon.case((np.array([x[k] for x in xs for k in KEYS]), i), sample=dict(cur=xs, tries=tries, events=n, trans=trans, dc=dc))


def chain(mon):
    """proposals along running chains (random accepts): domain, double-couple constraint and model moves of every proposal"""
    gc.collect(); gc.freeze()
    r = mon.rng
    for i in range(mon.n(36, 240)):
        n = int(r.choice([1, 1, 1, 2, 3]))
        tries = int(r.choice([0, 0, 5, 40]))
        dc, trans = [(False, False), (True, False), (False, True)][i % 3]
        kw = dict(dimension_jump_prob=.3, dc_prior=float(r.uniform(.2, .8))) if trans else {}
        init = 'grid' if i % 2 else ''
        alg = make(n, trans=trans, dc=dc, tries=tries, learning_length=int(r.integers(0, 30)), acceptance_rate_window=int(r.integers(1, 12)),
                   chain_length=60, initial_sample=init, min_number_initialisation_samples=int(r.integers(1, 60)), **kw)
        mts, end = mon.call('initialise_answers', alg.initialise)
        det = dict(i=i, events=n, tries=tries, dc=dc, trans=trans, init=init)
        steps = 0
        while not end and steps < 400:
            steps += 1
            started = isinstance(alg.xi, (dict, list))
            m0 = np.asarray(mts[0] if n > 1 else mts)
            cols = m0.shape[1]
            if started and steps > 1 and alg.xi is not alg.xi_1:
                cur = [{k: f(v) for k, v in x.items()} for x in (alg.xi if n > 1 else [alg.xi])]
                watch(mon, alg, mts, cur, dc, trans, **det)
            elif started:
                for e, (xs, m) in enumerate(events_of(alg, mts)):
                    for q in xs:
                        for k in KEYS:
                            lo, hi = B.get(k, (0, 2*PI))
                            mon.check(lo-1e-12 <= q[k] <= hi+1e-12, 'initial_state_in_the_domain', state=q, **det)
                    if dc:
                        mon.check(all(is_dc(q) for q in xs), 'constrained_chain_proposes_double_couples', initial=xs[:1], **det)
                    mon.check(np.abs(np.sqrt((m*m).sum(0))-1).max() < 1e-9, 'unit_norm', **det)
            ln = -2.*r.random((1, cols))**.2
            ln[r.random((1, cols)) < .2] = -INF
            if n > 1 and not started:
                res = [{'ln_pdf': -2.*r.random((1, np.asarray(m).shape[1])), 'moment_tensors': m, 'n': np.asarray(m).shape[1]} for m in mts]
            else:
                res = {'ln_pdf': ln, 'moment_tensors': mts, 'n': cols}
            mts, end = mon.call('iterate_answers', alg.iterate, res)
            for a in (alg.alpha if n > 1 else [alg.alpha]):
                bad = {k: v for k, v in a.items() if not (np.isfinite(v) and v > 0)}
                mon.check(not bad, 'widths_stay_positive', bad=bad, **det)
        mon.check(steps < 400, 'chain_ends', steps=steps, **det)
        mon.case((i, n, tries, dc, trans, init), sample=det)


def wrapped_cdf(x, s):
    """cdf of a wrapped Gaussian displacement on (-pi, pi]"""
    k = np.arange(-8, 9)[:, None]*2*PI
    return (stats.norm.cdf((x[None]+k)/s)-stats.norm.cdf((-PI+k)/s)).sum(0)


def uniforms(x, cur, w, k):
    """probability integral transform of proposals of one parameter"""
    if k == 'kappa':
        d = (x-cur[k]+PI) % (2*PI)-PI
        return wrapped_cdf(d, w[k])
    lo, hi = B[k]
    a, b = stats.norm.cdf((lo-cur[k])/w[k]), stats.norm.cdf((hi-cur[k])/w[k])
    return (stats.norm.cdf((x-cur[k])/w[k])-a)/(b-a)


def distribution(mon):
    """the draws of a fixed state against the truncated Gaussians, their independence, and the balancing draw"""
    gc.collect(); gc.freeze()
    r = mon.rng
    multi = mon.flavour == 'c'

    def draw(alg, N):
        out, n = [[] for _ in range(alg.number_events)], 0
        while n < N:
            mts = alg.new_sample()
            for e, (xs, m) in enumerate(events_of(alg, mts)):
                out[e] += xs
            n = len(out[0])
        return out
    for i in range(mon.n(30 if multi else 16, 160)):
        n = int(r.choice([1, 1, 2, 3]))
        dc, trans = [(False, False), (True, False), (False, True)][i % 3]
        tries = 500 if multi and i % 5 else 0
        sg, sd, jp = float(10**r.uniform(-1.2, .3)), float(10**r.uniform(-1.2, .3)), float(r.choice([.15, .5, .8]))
        kw = dict(dimension_jump_prob=jp, dc_sigma_g=sg, dc_sigma_d=sd) if trans else {}
        alg = make(n, trans=trans, dc=dc, tries=tries, **kw)
        if tries:
            alg._number_samples = tries
        give_widths(alg, r, hostile=False)
        cur = [state(r, dc or (trans and r.random() < .5), mode=str(r.choice(['plain', 'near', 'edge']))) for _ in range(n)]
        place(alg, cur)
        ws = [dict(a) for a in (alg.alpha if n > 1 else [alg.alpha])]
        det = dict(cur=cur, widths=ws, events=n, tries=tries, trans=trans, dc=dc, conf=kw)
        N = (2500 if not tries else 12000)*(2 if mon.tier == 'thorough' else 1)
        cache = {}

        def sample(scale):
            if scale not in cache:
                cache[scale] = draw(alg, N*scale)
            return cache[scale]
        for e in range(n):
            isdc = is_dc(cur[e])
            keys = ['kappa', 'h', 'sigma'] if isdc else KEYS
            for k in keys:
                def test(scale):
                    x = np.array([q[k] for q in sample(scale)[e] if is_dc(q) == isdc])
                    if len(x) < 50:
                        return 1.
                    return stats.kstest(uniforms(x, cur[e], ws[e], k), 'uniform').pvalue
                p_confirm(mon, 'proposal_is_the_truncated_gaussian', test, key=k, event=e, **det)
                mon.event('ks_'+k)

            def indep(scale):
                U = np.array([[q[k] for k in keys] for q in sample(scale)[e] if is_dc(q) == isdc])
                if len(U) < 50:
                    return 1.
                U = np.column_stack([uniforms(U[:, j], cur[e], ws[e], k) for j, k in enumerate(keys)])
                ps = []
                for a in range(len(keys)):
                    for b in range(a):
                        ps.append(stats.pearsonr(U[:, a], U[:, b])[1])
                    ps.append(stats.pearsonr(U[1:, a], U[:-1, a])[1])
                return min(1., min(ps)*len(ps))
            p_confirm(mon, 'proposed_parameters_are_independent', indep, event=e, **det)
            if trans:
                def freq(scale):
                    d = np.array([is_dc(q) != isdc for q in sample(scale)[e]])
                    return stats.binomtest(int(d.sum()), len(d), jp).pvalue
                p_confirm(mon, 'model_jumps_as_often_as_configured', freq, event=e, **det)
                if isdc:
                    for k, s in (('gamma', sg), ('delta', sd)):
                        def test(scale):
                            x = np.array([q[k] for q in sample(scale)[e] if not is_dc(q)])
                            if len(x) < 50:
                                return 1.
                            return stats.kstest(uniforms(x, {k: 0.}, {k: s}, k), 'uniform').pvalue
                        p_confirm(mon, 'balancing_draw_is_the_assumed_density', test, key=k, event=e, **det)
                        mon.event('ks_balance_'+k)
        if n > 1:
            def cross(scale):
                s = sample(scale)
                ps = [stats.pearsonr([math.sin(q['kappa']-cur[a]['kappa']) for q in s[a]], [math.sin(q['kappa']-cur[b]['kappa']) for q in s[b]])[1] for a in range(n) for b in range(a)]
                ps = [p for p in ps if p == p]
                return min(1., min(ps)*len(ps)) if ps else 1.
            p_confirm(mon, 'events_are_proposed_independently', cross, **det)
        mon.case((np.array([x[k] for x in cur for k in KEYS]), i), sample=det)


def flatten(alg):
    return [dict(a) for a in (alg.alpha if alg.number_events > 1 else [alg.alpha])]


def watch_widths(mon, alg, before, keep, /, **det):
    after = flatten(alg)
    mon.check(len(after) == len(before), 'one_set_of_widths_per_event', **det)
    mx = alg.max_alpha
    for b, a in zip(before, after):
        mon.check(set(keep) <= set(a) and set(b) <= set(a) | {'proposal_normalisation'}, 'no_width_is_lost', before=b, after=a, **det)
        for k, v in a.items():
            v = f(v)
            mon.check(math.isfinite(v) and v > 0, 'widths_stay_positive', key=k, value=v, before=b, **det)
            if k in keep:
                mon.check(v == keep[k], 'balancing_widths_are_kept', key=k, value=v, want=keep[k], **det)
            elif k in mx and k in b:
                mon.check(v <= max(f(b[k]), mx[k])*(1+1e-12), 'never_raised_above_the_maximum', key=k, value=v, before=f(b[k]), maximum=mx[k], **det)
                mon.check(v <= mx[k]*(1+1e-12) or v <= f(b[k]), 'never_raised_above_the_maximum', key=k, value=v, before=f(b[k]), maximum=mx[k], **det)
                if v > f(b[k]):
                    mon.event('raised')
                elif v < f(b[k]):
                    mon.event('lowered')
                else:
                    mon.event('kept')


def rates(r, m):
    p = r.integers(5)
    if p == 0:
        return r.random(m)
    if p == 1:
        return r.choice([0., 1.], m)
    if p == 2:
        return np.full(m, float(r.choice([0., 1., .02, .3, .5, .95, r.random()])))
    if p == 3:
        return r.choice([0., .01, .1, .3, .31, .4, .5, .51, .9, .99, 1.], m)
    return np.clip(np.cumsum(r.normal(size=m)*.2)+.4, 0, 1)


def adapt(mon):
    """scripted accept/reject histories of the learning period drive the adaptation through iterate()"""
    gc.collect(); gc.freeze()
    r = mon.rng
    for i in range(mon.n(90, 700)):
        n = int(r.choice([1, 1, 2, 3]))
        trans = bool(r.random() < .5)
        tries = int(r.choice([0, 6]))
        W = int(r.choice([1, 2, 5, 10, 20]))
        kw = {}
        keep = {}
        if trans:
            sg, sd = float(10**r.uniform(-2, .3)), float(10**r.uniform(-2, .3))
            kw = dict(dc_sigma_g=sg, dc_sigma_d=sd, dimension_jump_prob=float(r.choice([.01, .5])))
            keep = {'gamma_dc': sg, 'delta_dc': sd}
        lo = float(r.choice([.3, .05, .2]))
        kw.update(min_acceptance_rate=lo, max_acceptance_rate=float(r.choice([.5, .9, lo+.05])))
        if r.random() < .3:
            kw['max_alpha'] = {'kappa': float(r.uniform(.7, 2)), 'h': float(r.uniform(.25, .6))}
        if r.random() < .3:
            kw['alpha'] = {'kappa': float(r.uniform(.01, .6)), 'gamma': float(r.uniform(.001, .2))}
        alg = mon.call('constructor_answers', make, n, trans=trans, tries=tries, acceptance_rate_window=W, **kw)
        for k, v in kw.get('max_alpha', {}).items():
            mon.check(alg.max_alpha[k] == v, 'configured_maximum_is_used', key=k, got=alg.max_alpha[k], want=v)
        for k, v in kw.get('alpha', {}).items():
            mon.check(all(a[k] == v for a in flatten(alg)), 'configured_width_is_used', key=k, got=flatten(alg)[0][k], want=v)
        alg.initialise()
        alg.iterate({'ln_pdf': np.array([[0.]]), 'moment_tensors': None, 'n': 1})
        hist = rates(r, int(r.integers(3, 14)))
        det = dict(i=i, events=n, trans=trans, tries=tries, window=W, conf=kw, rates=hist)
        before = flatten(alg)
        changes = 0
        L = 0.
        for q in hist:
            acc = r.random(W) < q if 0 < q < 1 and W < 5 else np.arange(W) < round(q*W)
            r.shuffle(acc)
            for a in acc:
                m = len(alg.xi_1[0]) if n > 1 and isinstance(alg.xi_1[0], list) else len(alg.xi_1) if n == 1 and isinstance(alg.xi_1, list) else 1
                if a:
                    L += 3000.
                    ln = np.full((1, m), -INF); ln[0, 0] = L
                else:
                    ln = np.full((1, m), -INF)
                mon.call('iterate_answers', alg.iterate, {'ln_pdf': ln, 'moment_tensors': None, 'n': m})
                now = flatten(alg)
                if now != before:
                    changes += 1
                watch_widths(mon, alg, before, keep, **det)
                before = now
        mon.event('adaptations', changes)
        # whatever the widths have become, proposing still works
        for _ in range(3):
            xs = [state(r, False, mode='edge') for _ in range(n)]
            place(alg, xs)
            mts = mon.call('new_sample_answers', alg.new_sample)
            watch(mon, alg, mts, xs, False, trans, **det)
        mon.case((i, n, trans, tries, W, hist), sample=det)


def windows(mon):
    """long sequences of learning-window rates given straight to the adaptation"""
    r = mon.rng
    for i in range(mon.n(500, 5000)):
        n = int(r.choice([1, 1, 2]))
        trans = bool(r.random() < .5)
        keep, kw = {}, {}
        if trans:
            keep = {'gamma_dc': .2, 'delta_dc': .2}
        alg = make(n, trans=trans, tries=int(r.choice([0, 6])), **kw)
        if not hasattr(alg, '_modify_acceptance_rate'):
            mon.event('adaptation_entry_point_renamed')
            return
        hist = rates(r, int(r.integers(5, 80)))
        W = int(r.choice([10, 100, 1000]))
        before = flatten(alg)
        for q in hist:
            k = int(round(q*W))
            alg._learning_accepted = [1]*k+[0]*(W-k)
            mon.call('adaptation_answers', alg._modify_acceptance_rate)
            watch_widths(mon, alg, before, keep, i=i, rates=hist, events=n, trans=trans)
            before = flatten(alg)
            mon.event('windows')
        mon.case((i, hist, W))


WORKLOADS = {
    'domain': dict(fn=domain, flavours=['py', 'c', 'san'], shards={'quick': 1, 'thorough': 3}, need={'domain': 5000, 'jump_keeps_strike_dip_and_slip': 200, 'double_couple_tensor': 300}, timeout={'quick': 240, 'thorough': 840}, hang='violation'),
    'chain': dict(fn=chain, shards={'quick': 1, 'thorough': 2}, need={'domain': 1000, 'initial_state_in_the_domain': 30}, timeout={'quick': 240, 'thorough': 840}, hang='violation'),
    'distribution': dict(fn=distribution, shards={'quick': 1, 'thorough': 3}, need={'proposal_is_the_truncated_gaussian': 50, 'balancing_draw_is_the_assumed_density': 2}, timeout={'quick': 300, 'thorough': 840}),
    'adapt': dict(fn=adapt, shards={'quick': 1, 'thorough': 2}, need={'widths_stay_positive': 5000, 'adaptations': 100}, timeout={'quick': 240, 'thorough': 840}, hang='violation'),
    'windows': dict(fn=windows, flavours=['c'], shards={'thorough': 2}),
}

if __name__ == '__main__':
    harness.main('C06', __file__, WORKLOADS,
                 rule='one case = one current state with widths and chain configuration (domain, distribution) or one acceptance-rate history (adapt, windows); all are non-trivial',
                 assumptions=['reflect_* options and the crack+double-couple chain are outside the quantifier',
                              'with gaussian_jump_params=False only the domain of the balancing draw is watched'])
