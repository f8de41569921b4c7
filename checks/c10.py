"""C10: evidence, model probabilities and divergences obey their defining identities.

Oracles in extended precision for every returned number (functions and the values the sample store
reports), plus shift, order, volume and bound monitors."""
import numpy as np
from vpm import harness

L = np.longdouble


def lse(a):
    a = np.asarray(a, dtype=L)
    m = a.max() if a.size else -np.inf
    if not np.isfinite(m):
        return L(-np.inf)
    return np.log(np.sum(np.exp(a-m)))+m


def weights(a):
    a = np.asarray(a, dtype=L)
    w = np.exp(a-a.max())
    return w/w.sum()


def vec(mon, n=None, allow_all=True):
    r = mon.rng
    n = n or int(r.choice([1, 2, 3, 10, 100, 1000]))
    mode = r.integers(6)
    a = r.normal(size=n)
    if mode == 0:
        a = a*10**r.uniform(0, 4)
    elif mode == 1:
        a = a*3-10**r.uniform(2, 5)
    elif mode == 2:
        a = a*0.
    elif mode == 3:
        a = a*30+r.uniform(-800, 800)
    elif mode == 4:
        a = a*3+r.choice([710., 2000., -745., -800.])
    if r.random() < 0.4:
        a[r.random(n) < 0.5] = -np.inf
    if not allow_all and not np.isfinite(a).any():
        a[r.integers(n)] = -3.
    return a


def wrap(mon, a):
    from MTfit.probability import LnPDF
    k = mon.rng.integers(3)
    return [lambda: a.copy(), lambda: np.matrix(a), lambda: LnPDF(np.matrix(a))][k]()


def mag(*arrs):
    m = 1.
    for a in arrs:
        f = np.abs(np.asarray(a, dtype=float))
        f = f[np.isfinite(f)]
        if f.size:
            m = max(m, f.max())
    return m


def w_evidence(mon):
    from MTfit.sampling import ln_bayesian_evidence as E
    r = mon.rng
    for it in range(mon.n(3000, 30000)):
        a = vec(mon)
        n = len(a)
        N = int(n+r.choice([0, 1, 10, 1000, 10**6, 10**9]))
        ev = int(r.choice([1, 1, 2, 3]))

        def out(v):
            o = {'ln_pdf': wrap(mon, v)}
            if ev == 1:
                if r.random() < 0.7:
                    o.update(g=r.uniform(-.5, .5, n), d=r.uniform(-1, 1, n))
            else:
                for i in range(ev):
                    o['g_%d' % (i+1)], o['d_%d' % (i+1)] = r.uniform(-.5, .5, n), r.uniform(-1, 1, n)
            return o
        want = float(lse(a)-np.log(L(N)))
        d = dict(ln_pdf=a, N=N, events=ev)
        mon.case([a, N, ev], sample=d)
        mon.event('has_zero', int((a == -np.inf).any()))
        t = 1e-15*mag(a)+1e-11
        got = mon.call('evidence_accepts', E, out(a), N)
        mon.close(got, want, 'evidence_is_log_mean', rtol=0, atol=t, **d)
        p = r.permutation(n)
        mon.close(mon.call('evidence_accepts', E, out(a[p]), N), want, 'evidence_order_free', rtol=0, atol=t, **d)
        c = float(r.choice([-1000., 1000., 3.5, -1e4]))
        mon.close(mon.call('evidence_accepts', E, out(a+c), N), want+c, 'evidence_shift', rtol=0, atol=t+1e-15*mag(a+c)+1e-11, c=c, **d)
        # padding with zero-probability samples leaves it alone
        if ev == 1:
            z = np.concatenate([a, np.full(5, -np.inf)])
            mon.close(mon.call('evidence_accepts', E, {'ln_pdf': wrap(mon, z)}, N+5), float(lse(a)-np.log(L(N+5))), 'evidence_counts_zero_samples', rtol=0, atol=t, **d)


def w_models(mon):
    from MTfit.probability import model_probabilities as M
    r = mon.rng
    for it in range(mon.n(6000, 60000)):
        k = int(r.integers(2, 6))
        e = r.uniform(-1, 1, k)*r.choice([1., 10., 100., 1000.])
        if r.random() < 0.3:
            e[r.integers(k)] = e[r.integers(k)]
        if r.random() < 0.3:
            e = e + r.choice([1e3, -1e3, 5e4])
        how = r.integers(3)
        args = [float(x) for x in e] if how == 0 else (list(e) if how == 1 else [np.float64(x) for x in e])
        d = dict(evidences=e)
        mon.case([e], sample=d)
        got = np.asarray(mon.call('models_accept', M, *args), dtype=float)
        w = weights(e)
        if not mon.check(got.shape == (k,), 'one_probability_per_model', got=got, **d):
            continue
        mon.close(got, w.astype(float), 'model_probabilities_exact', rtol=1e-11*(1+mag(e)*1e-3), atol=1e-300, **d)
        mon.close(got.sum(), 1., 'models_sum_to_one', rtol=1e-13, **d)
        mon.check((got[e > e.max()-700] > 0).all() and (got >= 0).all(), 'models_positive', got=got, **d)
        i, j = r.integers(k), r.integers(k)
        if got[j] > 1e-290 and got[i] > 1e-290:
            mon.close(np.log(got[i])-np.log(got[j]), e[i]-e[j], 'model_ratio', rtol=0, atol=1e-11*(1+mag(e)), **d)
        c = float(r.choice([1e3, -1e3, 7.]))
        g2 = np.asarray(mon.call('models_accept', M, *[x+c for x in args]), dtype=float)
        mon.close(g2, got, 'models_shift_free', rtol=1e-9, atol=1e-300, c=c, **d)
        p = r.permutation(k)
        mon.close(np.asarray(M(*[args[q] for q in p])), got[p], 'models_order_free', rtol=1e-11, atol=1e-300, **d)


def w_dkl(mon):
    from MTfit.probability import dkl_estimate, dkl
    r = mon.rng
    for it in range(mon.n(4000, 40000)):
        a = vec(mon, allow_all=False)
        n = len(a)
        N = int(n+r.choice([0, 0, 1, 50, 10**5]))
        V = float(r.choice([1., 2*np.pi**2, np.pi**3, 1e-3, 1e6]))
        w = weights(a)
        H = -np.sum(np.where(w > 0, w*np.log(np.where(w > 0, w, 1)), 0))
        want = float(np.log(L(N))-H)
        d = dict(ln_pdf=a, V=V, N=N)
        mon.case([a, V, N], sample=d)
        x = a.copy() if r.random() < 0.5 else __import__('MTfit.probability', fromlist=['LnPDF']).LnPDF(np.matrix(a))
        before = a.copy()
        got = mon.call('dkl_accepts', dkl_estimate, x, V, N)
        t = 1e-10+2e-15*mag(a)
        mon.close(got, want, 'dkl_is_lnN_minus_entropy', rtol=0, atol=t, **d)
        mon.check(-t <= float(got) <= np.log(N)+t, 'dkl_in_0_lnN', got=got, **d)
        g2 = mon.call('dkl_accepts', dkl_estimate, a+13.25, V, N)
        mon.close(g2, want, 'dkl_shift_free', rtol=0, atol=t, **d)
        g3 = mon.call('dkl_accepts', dkl_estimate, a[r.permutation(n)], V*3, N)
        mon.close(g3, want, 'dkl_order_and_volume_free', rtol=0, atol=t, **d)
        # two sampled PDFs
        b = vec(mon, n, allow_all=False)
        dV = float(r.choice([1., 0.1, 7.]))
        same = mon.call('dkl_accepts', dkl, a.copy(), a.copy(), dV)
        mon.close(same, 0., 'dkl_identical_is_zero', rtol=0, atol=1e-12+1e-15*mag(a), **d)
        u = mon.call('dkl_accepts', dkl, a.copy(), a+5.5, dV)
        mon.close(u, 0., 'dkl_identical_up_to_scale_is_zero', rtol=0, atol=t, **d)
        g = mon.call('dkl_accepts', dkl, a.copy(), b.copy(), dV)
        q = np.asarray(b, dtype=L)-lse(b)
        lw = np.asarray(a, dtype=L)-lse(a)
        tq = 1e-10+4e-15*mag(a)+4e-15*mag(b)
        pos = w > 0
        wd = w.astype(float)
        d2 = dict(p=a, q=b, dV=dV)
        mon.check(not np.isnan(g) and g >= -tq, 'dkl_non_negative', got=g, **d2)
        if (np.isneginf(q) & (wd > 1e-290)).any():
            mon.check(g == np.inf, 'dkl_infinite_without_support', got=g, **d2)
        elif not (np.isneginf(q) & pos).any():
            val = float(np.sum(np.where(pos, w*(np.where(pos, lw, 0)-np.where(pos & np.isfinite(q), q, 0)), 0)))
            mon.close(g, val, 'dkl_exact', rtol=1e-9, atol=tq, **d2)
        mon.check((a == before).all(), 'input_not_modified', **d)
        mon.event('q_lacks_support', int(np.isneginf(q).any()))


def w_store(mon):
    """the numbers the sample store itself reports"""
    from MTfit.sampling import Sample
    r = mon.rng
    for it in range(mon.n(300, 3000)):
        ev = int(r.choice([1, 1, 2]))
        S = Sample(initial_sample_size=int(r.choice([7, 50, 100000][:2 if ev > 1 else 3])), number_events=ev)
        allv, N = [], 0
        convert = bool(r.random() < 0.3) and ev == 1
        dc = bool(r.random() < 0.3)
        for b in range(int(r.integers(1, 5))):
            k = int(r.integers(1, 30))
            mt = r.normal(size=(6*ev, k))
            if dc:
                from MTfit.convert import Tape_MT6
                mt = np.concatenate([np.array([np.asarray(Tape_MT6(0., 0., float(r.uniform(0, 6)), float(r.uniform(0.01, 1)), float(r.uniform(-1.5, 1.5)))).flatten() for _ in range(k)]).T for e in range(ev)], 0)
            for e in range(ev):
                mt[6*e:6*e+6] /= np.sqrt((mt[6*e:6*e+6]**2).sum(0))
            v = r.normal(size=k)*3+r.choice([0., -800., 30.])
            v[r.random(k) < 0.3] = -np.inf
            n = k+int(r.choice([0, 5]))
            S.append(np.matrix(mt), np.matrix(v), n)
            allv.append(v)
            N += n
        v = np.concatenate(allv)
        if not np.isfinite(v).any():
            continue
        discard = float(r.choice([0, 10000, 1e6]))
        out, txt = mon.call('store_output_accepts', S.output, True, convert, N, discard)
        d = dict(ln_pdf=v, N=N, discard=discard, events=ev, convert=convert)
        mon.case([v, N, discard, ev, convert], sample=d)
        t = 1e-10+1e-15*mag(v)+(2./discard if discard else 0)
        if mon.check('ln_bayesian_evidence' in out, 'evidence_reported', keys=list(out), **d):
            mon.close(out['ln_bayesian_evidence'], float(lse(v)-np.log(L(N))), 'store_evidence_is_log_mean', rtol=0, atol=t, **d)
        if 'dkl' in out:
            w = weights(v)
            H = -np.sum(np.where(w > 0, w*np.log(np.where(w > 0, w, 1)), 0))
            mon.close(out['dkl'], float(np.log(L(N))-H), 'store_dkl_is_lnN_minus_entropy', rtol=0, atol=1e-9+2e-15*mag(v), **d)
        else:
            mon.event('dkl_not_reported', 1)


W = {
    'evidence': dict(fn=w_evidence, shards={'thorough': 2}, need={'evidence_is_log_mean': 1000, 'has_zero': 100}),
    'models': dict(fn=w_models, shards={'thorough': 2}, need={'model_probabilities_exact': 1000}),
    'dkl': dict(fn=w_dkl, flavours=['py', 'c', 'san'], shards={'thorough': 3}, need={'dkl_is_lnN_minus_entropy': 1000, 'dkl_exact': 500, 'dkl_infinite_without_support': 50}),
    'store': dict(fn=w_store, shards={'thorough': 2}, need={'store_evidence_is_log_mean': 100, 'store_dkl_is_lnN_minus_entropy': 20}),
}

if __name__ == '__main__':
    harness.main('C10', __file__, W, rule='an observation is one vector of log-likelihoods / evidences with its sample count, volume and container; distinct by content',
                 assumptions=['a store that discards samples below 1/(N*discard) of the maximum may be off by at most 1/discard in relative evidence',
                              'the divergence of an all-zero PDF is undefined and not asked for'])
