"""C08: random source sampling draws from the stated prior.

Every draw is watched for its norm, its eigenvalue pattern and for repeats; uniformity is judged over
>=1e5 draws per source type by two-stage tests against exact marginals and against reference Haar draws."""
import numpy as np
from scipy import stats
from scipy.spatial.transform import Rotation
from vpm import harness
from vpm.harness import p_confirm

R2 = np.sqrt(2)


def m33(m):
    m = np.asarray(m)
    M = np.empty((m.shape[1], 3, 3))
    M[:, 0, 0], M[:, 1, 1], M[:, 2, 2] = m[0], m[1], m[2]
    M[:, 0, 1] = M[:, 1, 0] = m[3]/R2
    M[:, 0, 2] = M[:, 2, 0] = m[4]/R2
    M[:, 1, 2] = M[:, 2, 1] = m[5]/R2
    return M


def six(M):
    return np.array([M[:, 0, 0], M[:, 1, 1], M[:, 2, 2], R2*M[:, 0, 1], R2*M[:, 0, 2], R2*M[:, 1, 2]])


PAT = {'dc': np.array([1, 0, -1])/R2, 'clvd+': np.array([2, -1, -1])/np.sqrt(6), 'clvd-': np.array([1, 1, -2])/np.sqrt(6)}


def reference(kind, n, rng):
    if kind == 'mt':
        x = rng.normal(size=(6, n))
        return x/np.sqrt((x*x).sum(0))
    Q = Rotation.random(n, random_state=rng.integers(2**31)).as_matrix()
    if kind == 'dc':
        d = np.tile(PAT['dc'], (n, 1))
    else:
        d = np.where(rng.random((n, 1)) < .5, PAT['clvd+'], -PAT['clvd+'])
    return six(np.einsum('nij,nj,nkj->nik', Q, d, Q))


def algorithms(mon):
    from MTfit.algorithms.base import BaseAlgorithm
    from MTfit.algorithms.monte_carlo import IterationSample
    return BaseAlgorithm, IterationSample


def draw(mon, kind, n, via):
    """one call of the code under test"""
    Base, It = algorithms(mon)
    kw = dict(number_samples=n)
    if via == 'direct':
        A = Base(**kw)
        return mon.call('draw_accepts', {'mt': A.random_mt, 'dc': A.random_dc, 'clvd': A.random_clvd}[kind])
    if kind == 'dc':
        kw['dc'] = True
    elif kind == 'clvd':
        kw['sample_distribution'] = 'clvd'
    if via == 'sample':
        return mon.call('draw_accepts', Base(**kw).random_sample)
    if via == 'iteration':
        return mon.call('draw_accepts', It(**kw).random_sample)
    return mon.call('draw_accepts', It(number_events=3, **kw).random_sample)


def pattern(mon, kind, m, n, via):
    m = np.asarray(m)
    if not mon.check(m.shape == (6, n), 'requested_number_of_samples', got=m.shape, want=(6, n), kind=kind, via=via):
        return None
    nn = np.sqrt((m*m).sum(0))
    mon.check((np.abs(nn-1) < 1e-12).all(), 'unit_norm', n=n, worst=np.abs(nn-1).max(), kind=kind, via=via)
    mon.check(np.isfinite(m).all(), 'finite', n=n, kind=kind, via=via)
    mon.check(np.unique(m, axis=1).shape[1] == n, 'no_repeated_sample', n=n, kind=kind, via=via)
    if kind != 'mt' and np.isfinite(m).all():
        e = np.sort(np.linalg.eigvalsh(m33(m)), axis=1)[:, ::-1]
        if kind == 'dc':
            d = np.abs(e-PAT['dc']).max()
        else:
            d = np.minimum(np.abs(e-PAT['clvd+']).max(1), np.abs(e-PAT['clvd-']).max(1)).max()
        mon.check(d < 1e-7, 'eigenvalue_pattern', n=n, worst=d, kind=kind, via=via)
        mon.check(np.abs(m[:3].sum(0)).max() < 1e-12, 'no_isotropic_part', n=n, kind=kind, via=via)
    return m


def w_each(mon):
    r = mon.rng
    for it in range(mon.n(200, 1500)):
        for kind in ('mt', 'dc', 'clvd'):
            n = int(r.choice([1, 2, 3, 7, 100, 1000]))
            via = str(r.choice(['direct', 'sample', 'iteration', 'events']))
            if r.random() < .3:
                np.random.seed(int(r.integers(2**32)))
            x = draw(mon, kind, n, via)
            parts = x if via == 'events' else [x]
            if via == 'events':
                mon.check(isinstance(x, list) and len(x) == 3, 'one_set_per_event', got=type(x))
            ms = [pattern(mon, kind, p, n, via) for p in parts]
            if any(m is None for m in ms):
                continue
            mon.cases(ms[0])
            y = np.asarray(draw(mon, kind, n, 'direct'))
            allm = np.concatenate(ms+[y], 1)
            mon.check(np.unique(allm, axis=1).shape[1] == allm.shape[1], 'events_and_calls_are_independent', n=n, kind=kind, via=via)
            if kind == 'clvd' and n >= 1000:
                s = np.sign(np.linalg.eigvalsh(m33(ms[0]))[:, 1])
                mon.check((s > 0).any() and (s < 0).any(), 'samples_of_one_call_are_independent', positive=int((s > 0).sum()), of=n)


def collect(mon, kind, n, via, per):
    out = []
    while sum(x.shape[1] for x in out) < n:
        x = draw(mon, kind, per, via)
        out += [np.asarray(p) for p in x] if via == 'events' else [np.asarray(x)]
    return np.concatenate(out, 1)[:, :n]


def w_uniform(mon):
    n0 = mon.n(120000, 400000)
    beta = stats.beta(2.5, 2.5).cdf
    for kind in ('mt', 'dc', 'clvd'):
        for via, per in (('direct', 20000), ('sample', 5000), ('events', 10000), ('direct', 1000)):
            if mon.tier == 'quick' and via == 'direct' and per == 1000 and kind != 'clvd':
                continue
            rng = mon.rng
            W6 = rng.normal(size=(6, 6))
            cache = {}

            def data(scale, fresh=False):
                if fresh or scale not in cache:
                    m = collect(mon, kind, n0*scale, via, per)
                    cache[scale] = (pattern(mon, kind, m, m.shape[1], via), reference(kind, n0*scale*2, rng))
                    mon.cases(m[:, :20000])
                return cache[scale]

            def test(rule, f):
                p_confirm(mon, rule, lambda s: f(*data(s)), kind=kind, via=via, per=per)
            if kind == 'mt':
                for i in range(6):
                    test('component_marginal', lambda m, q: stats.kstest((m[i]+1)/2, beta).pvalue)
                    w = W6[i]/np.sqrt((W6[i]**2).sum())
                    test('rotation_invariant_direction', lambda m, q: stats.kstest((w.dot(m)+1)/2, beta).pvalue)
                for lag in (1, 2, 7):
                    test('samples_independent', lambda m, q: stats.kstest(((m[:, lag:]*m[:, :-lag]).sum(0)[::2]+1)/2, beta).pvalue)
            else:
                for lag in (1, 3):
                    test('samples_independent', lambda m, q: stats.ks_2samp((m[:, lag:]*m[:, :-lag]).sum(0)[::2], (q[:, 1:]*q[:, :-1]).sum(0)[::2]).pvalue)
            # functionals of the tensor against reference draws
            for i in range(6):
                a, b = W6[i], W6[(i+1) % 6]
                test('linear_functional', lambda m, q: stats.ks_2samp(a.dot(m), a.dot(q)).pvalue)
                test('quadratic_functional', lambda m, q: stats.ks_2samp(a.dot(m)*b.dot(m), a.dot(q)*b.dot(q)).pvalue)
                test('component_vs_reference', lambda m, q: stats.ks_2samp(m[i], q[i]).pvalue)
            # moments: mean zero, isotropic second moment
            def chi(m, q):
                z = m.mean(1)/np.sqrt(q.var(1)/m.shape[1])
                return float(min(1., 12*stats.norm.sf(np.abs(z).max())))
            test('zero_mean', chi)

            def cov(m, q):
                p = 1.
                for i in range(6):
                    for j in range(i):
                        z = (m[i]*m[j]).mean()-(q[i]*q[j]).mean()
                        s = np.sqrt((q[i]*q[j]).var()*(1./m.shape[1]+1./q.shape[1]))
                        p = min(p, 30*stats.norm.sf(abs(z)/s))
                return float(p)
            test('second_moments', cov)
            if kind != 'mt':
                d = rng.normal(size=(4, 3))
                d /= np.sqrt((d*d).sum(1))[:, None]

                def axes(m):
                    w, v = np.linalg.eigh(m33(m))
                    if kind == 'clvd':
                        k = np.where(np.abs(w[:, 0]) > np.abs(w[:, 2]), 0, 2)
                        return [v[np.arange(len(k)), :, k]]
                    return [v[:, :, 2], v[:, :, 1], v[:, :, 0]]
                for u in list(d)+list(np.eye(3)):
                    test('axes_uniform_on_sphere', lambda m, q: float(min(1, 3*min(stats.kstest(np.abs(x.dot(u)), 'uniform').pvalue for x in axes(m[:, :60000])))))
            if kind == 'clvd':
                def sign(m, q):
                    k = int((np.linalg.eigvalsh(m33(m))[:, 1] < 0).sum())
                    return stats.binomtest(k, m.shape[1], .5).pvalue
                test('clvd_sign_balanced', sign)


W = {
    'each': dict(fn=w_each, flavours=['py', 'c', 'san'], shards={'thorough': 2}, need={'requested_number_of_samples': 300, 'eigenvalue_pattern': 300}),
    'uniform': dict(fn=w_uniform, shards={'quick': 1, 'thorough': 2}, need={'rotation_invariant_direction': 6, 'axes_uniform_on_sphere': 10}, timeout={'quick': 400, 'thorough': 800}),
}

if __name__ == '__main__':
    harness.main('C08', __file__, W, rule='an observation is one drawn source tensor; distinct by content',
                 assumptions=['uniformity judged by two-stage tests (1e-4 then 1e-6 on a fresh 4x sample)'])
