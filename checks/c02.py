"""C02: polarity likelihoods are valid two-outcome probability models.

Every returned log-likelihood is watched by an oracle evaluating the stated formula independently
(via erfc, station by station, with an interval that covers rounding of 1+erf), plus the
metamorphic monitors: both outcomes sum to one, monotone in yA, s=0 hard limit, no NaN."""
import numpy as np
from scipy.special import erfc
from vpm import harness

EPS = 6e-16


def upper_lower(p):
    with np.errstate(all='ignore'):
        return np.log(np.maximum(p-EPS*(1+p), 0)), np.log(p+EPS*(1+p))


def pol_p(x, s, w):
    """stated formula; s==0 is the hard limit"""
    with np.errstate(all='ignore'):
        t = np.where(s > 0, x/(np.sqrt(2)*np.where(s > 0, s, 1)), np.sign(x)*1e9)
    pp, pn = 0.5*erfc(-t), 0.5*erfc(t)
    return pp*(1-w)+pn*w


def step(x):
    return np.where(x > 0, 1., np.where(x < 0, 0., 0.5))


def polprob_p(x, pp, pn, w):
    h, hm = step(x), step(-x)
    return (h*pp+hm*pn)*(1-w)+(h*pn+hm*pp)*w


def gen(mon):
    r = mon.rng
    u = int(r.integers(1, 9))
    v = int(r.choice([1, 1, 2, 3, 5]))
    n = int(r.choice([1, 2, 5, 6, 7, 40]))
    a = r.normal(size=(u, v, 6))*10**r.uniform(-2, 1)
    mt = r.normal(size=(6, n))
    mt /= np.sqrt((mt*mt).sum(0))
    kind = r.integers(6)
    if kind == 0 and n > 2:
        # exactly nodal: zero amplitude from zero coefficients (no rounding)
        a[r.integers(u)] = 0.
    if kind == 1:
        a = np.sign(a)*np.round(np.abs(a)*4)/4
        mt = np.round(mt*4)/4
    smode = r.integers(5)
    s = np.abs(r.normal(size=u))*10**r.uniform(-3, 1)+1e-6
    if smode == 0:
        s[:] = 0.
    elif smode == 1:
        s[r.integers(u)] = 0.
    elif smode == 2:
        s[:] = 10**r.uniform(-12, -3)
    wm = r.integers(8)
    w = {0: 0.0, 1: 0, 2: 0.5, 3: 1.0, 4: float(r.uniform(0, 1)), 5: r.uniform(0, 1, size=u), 6: np.full(u, 0.03),
         7: r.choice([0., 1., 0.5, 0.1], size=u)}[int(wm)]
    return u, v, n, a, mt, s, w


def amp(a, mt):
    return np.einsum('uvk,kn->uvn', a, mt)


def wfull(w, u):
    return np.broadcast_to(np.asarray(w, dtype=float), (u,)).reshape(u, 1, 1)


def expect(mon, got, p, x, v, n, rule, **detail):
    """got (v,n) against per-station probabilities p (u,v,n); amplitudes within rounding of zero and
    not exactly zero are left to the wide interval"""
    lo, hi = upper_lower(p)
    lo, hi = lo.sum(0), hi.sum(0)
    got = np.asarray(got, dtype=float)
    if not mon.check(got.size == v*n, rule+'_shape', got_shape=got.shape, want=(v, n), **detail):
        return None
    got = got.reshape(v, n)
    mon.check(not np.isnan(got).any(), 'no_nan', n=got.size, got=got, **detail)
    with np.errstate(invalid='ignore'):
        tol = 1e-11*(1+np.abs(np.where(np.isfinite(hi), hi, 0)))
        ok = (got >= lo-tol) & (got <= hi+tol)
    ok |= (lo == -np.inf) & (hi < -700) & (got < -690)
    zero = (p == 0).any(0)
    mon.check(ok.all(), rule, n=got.size, got=got[~ok][:3], lo=lo[~ok][:3], hi=hi[~ok][:3], **detail)
    return got, zero


def variants(mon):
    return [None] if mon.flavour == 'py' else [None, False, True]


def w_polarity(mon):
    from MTfit.probability import probability as P
    for it in range(mon.n(5000, 30000)):
        u, v, n, a, mt, s, w = gen(mon)
        x = amp(a, mt)
        near = (np.abs(x) < 1e-12) & (x != 0)
        if near.any() and (s < 1e-9).any():
            continue
        S = s.reshape(u, 1, 1)
        W = wfull(w, u)
        p = pol_p(x, S, W)
        mon.case([a, mt, s, repr(w)], sample=dict(u=u, v=v, n=n, sigma=s, w=w, amplitude=x[:, 0, 0]))
        mon.event('zero_sigma', int((s == 0).any()))
        mon.event('exact_nodal', int((x == 0).any()))
        for uc in variants(mon):
            kw = {} if uc is None else {'_use_c': uc}
            lay = mon.rng.integers(3)
            m = mt.copy() if lay else np.asfortranarray(mt)
            wa = w.copy() if isinstance(w, np.ndarray) else w
            got = mon.call('polarity_accepts', P.polarity_ln_pdf, a.copy(), m, s.copy(), wa, **kw)
            d = dict(sigma=s, w=w, a=a, mt=mt, use_c=str(uc))
            r1 = expect(mon, got, p, x, v, n, 'polarity_formula', **d)
            if r1 is None:
                continue
            g, zero = r1
            hard = (s == 0).reshape(u, 1, 1) & (x*np.ones_like(S) < 0) & (W == 0)
            z = hard.any(0)
            mon.check((g[z] == -np.inf).all(), 'impossible_exactly_zero', n=max(1, z.sum()), got=g[z][:3], **d)
            mon.check((g <= 1e-12).all(), 'in_unit_interval', n=g.size, got=g.max(), **d)
            if u == 1:
                opp = np.asarray(mon.call('polarity_accepts', P.polarity_ln_pdf, -a, m, s.copy(), wa, **kw)).reshape(v, n)
                mon.close(np.exp(g)+np.exp(opp), np.ones((v, n)), 'outcomes_sum_to_one', rtol=0, atol=1e-12, **d)


def w_monotone(mon):
    from MTfit.probability import probability as P
    r = mon.rng
    for it in range(mon.n(1500, 8000)):
        s0 = float(r.choice([0., 1e-3, 0.05, 0.3, 2., 20.]))
        w = float(r.choice([0., 0.01, 0.2, 0.49, 0.5, 0.7]))
        x = np.sort(np.concatenate([r.normal(size=30)*(s0 or 1)*4, r.normal(size=10), [0., 1e-300, -1e-300, 30*s0, -30*s0, 1e6, -1e6]]))
        a = np.zeros((1, 1, 6))
        a[0, 0, 0] = 1.
        mt = np.zeros((6, len(x)))
        mt[0] = x
        mon.case([x, s0, w])
        for uc in variants(mon):
            kw = {} if uc is None else {'_use_c': uc}
            g = np.exp(np.asarray(mon.call('polarity_accepts', P.polarity_ln_pdf, a.copy(), mt.copy(), np.array([s0]), w, **kw)).flatten())
            d = np.diff(g)
            if w < 0.5:
                mon.check((d >= -1e-15).all(), 'monotone_in_yA', n=len(d), s=s0, w=w, x=x, p=g)
            elif w == 0.5:
                mon.check(np.allclose(g, 0.5, atol=1e-12, rtol=0), 'w_half_is_uninformative', s=s0, p=g)
            else:
                mon.check((d <= 1e-15).all(), 'antitone_when_w_above_half', n=len(d), s=s0, w=w, x=x, p=g)
            mon.close(g[x == 0], np.full((x == 0).sum(), 0.5), 'nodal_is_half', atol=1e-12, s=s0, w=w)


def w_polprob(mon):
    from MTfit.probability import probability as P
    r = mon.rng
    for it in range(mon.n(5000, 30000)):
        u, v, n, a, mt, s, w = gen(mon)
        x = amp(a, mt)
        if ((np.abs(x) < 1e-12) & (x != 0)).any():
            continue
        pm = r.integers(4)
        pp = r.uniform(size=u)
        pn = 1-pp
        if pm == 1:
            pn = r.uniform(size=u)*(1-pp)      # the two need not exhaust
        elif pm == 2:
            pp = r.choice([0., 1.], size=u)
            pn = 1-pp
        elif pm == 3:
            pp, pn = r.choice([0., 0.3, 1.], size=u), r.choice([0., 0.3, 0.7], size=u)
        p = polprob_p(x, pp.reshape(u, 1, 1), pn.reshape(u, 1, 1), wfull(w, u))
        mon.case([a, mt, pp, pn, repr(w)], sample=dict(u=u, v=v, n=n, positive=pp, negative=pn, w=w))
        mon.event('exact_nodal', int((x == 0).any()))
        for uc in variants(mon):
            kw = {} if uc is None else {'_use_c': uc}
            wa = w.copy() if isinstance(w, np.ndarray) else w
            got = mon.call('polprob_accepts', P.polarity_probability_ln_pdf, a.copy(), mt.copy(), pp.copy(), pn.copy(), wa, **kw)
            d = dict(positive=pp, negative=pn, w=w, a=a, mt=mt, use_c=str(uc))
            r1 = expect(mon, got, p, x, v, n, 'polprob_formula', **d)
            if r1 is None:
                continue
            g, zero = r1
            mon.check((g[zero] == -np.inf).all(), 'impossible_exactly_zero', n=max(1, zero.sum()), got=g[zero][:3], **d)
            if u == 1 and pm in (0, 2):
                opp = np.asarray(mon.call('polprob_accepts', P.polarity_probability_ln_pdf, -a, mt.copy(), pp.copy(), pn.copy(), wa, **kw)).reshape(v, n)
                mon.close(np.exp(g)+np.exp(opp), np.ones((v, n)), 'polprob_outcomes_sum_to_one', atol=1e-12, **d)
            # swapping the pick probabilities is the same as flipping the amplitude
            sw = np.asarray(mon.call('polprob_accepts', P.polarity_probability_ln_pdf, -a, mt.copy(), pn.copy(), pp.copy(), wa, **kw)).reshape(v, n)
            mon.close(sw, g, 'polprob_antisymmetry', rtol=1e-12, atol=1e-14, **d)


def w_nan(mon):
    from MTfit.probability import probability as P
    r = mon.rng
    bad = [np.nan, np.inf, -np.inf, 1e308, -1e308, 1e-320, 0.]
    for it in range(mon.n(2000, 12000)):
        u, v, n, a, mt, s, w = gen(mon)
        mt[r.integers(6), r.integers(n)] = bad[r.integers(len(bad))]
        if r.random() < 0.3:
            a[r.integers(u), r.integers(v), r.integers(6)] = bad[r.integers(len(bad))]
        pp = r.uniform(size=u)
        mon.case([a, mt, s, repr(w)])
        for uc in variants(mon):
            kw = {} if uc is None else {'_use_c': uc}
            wa = w.copy() if isinstance(w, np.ndarray) else w
            for name, g in (('polarity', mon.call('hostile_accepted', P.polarity_ln_pdf, a.copy(), mt.copy(), s.copy(), wa, **kw)),
                            ('polprob', mon.call('hostile_accepted', P.polarity_probability_ln_pdf, a.copy(), mt.copy(), pp.copy(), 1-pp, wa, **kw))):
                g = np.asarray(g)
                mon.check(not np.isnan(g).any() and not (g > 1e-9).any(), 'no_nan_hostile', n=g.size, which=name, got=g, a=a, mt=mt, sigma=s, w=w)


W = {
    'polarity': dict(fn=w_polarity, shards={'quick': 1, 'thorough': 4}, need={'polarity_formula': 3000, 'impossible_exactly_zero': 100, 'outcomes_sum_to_one': 100, 'zero_sigma': 50, 'exact_nodal': 20}),
    'monotone': dict(fn=w_monotone, shards={'quick': 1, 'thorough': 2}, need={'monotone_in_yA': 500, 'nodal_is_half': 50}),
    'polprob': dict(fn=w_polprob, shards={'quick': 1, 'thorough': 4}, need={'polprob_formula': 3000, 'impossible_exactly_zero': 100, 'exact_nodal': 20}),
    'nan': dict(fn=w_nan, shards={'quick': 1, 'thorough': 2}, need={'no_nan_hostile': 200}),
}
if __name__ == '__main__':
    harness.main('C02', __file__, W, rule='random station sets (1-8), location samples, sources, zero/tiny/large uncertainties, scalar and per-station mispick '
                 'probabilities, exactly nodal sources, hostile (inf/NaN/denormal) sources; a case is one argument set, distinct by its bytes')
