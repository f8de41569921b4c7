"""Independent interval oracles for the data likelihoods (none of the project's code is used).

Every function returns (lo, hi): what the log-likelihood may be, allowing for rounding in the
amplitudes a.m, in 1+erf and in the ratio density's exponents. Arrays a are (u, v, 6): u
observations, v location samples; mt is (6, n); the result is (v, n)."""
import numpy as np
from scipy.special import erfc, erf

EPS = 6e-16


def amps(a, mt):
    """modelled amplitudes (u,v,n) and the rounding bound on them"""
    x = np.einsum('uvk,kn->uvn', a, mt)
    return x, 4e-15*np.einsum('uvk,kn->uvn', np.abs(a), np.abs(mt))+1e-18


def _log(p):
    with np.errstate(all='ignore'):
        return np.log(np.maximum(p-EPS*(1+p), 0)), np.log(p+EPS*(1+p))


def _sum(lo, hi):
    with np.errstate(all='ignore'):
        lo, hi = lo.sum(0), hi.sum(0)
    tol = 1e-11*(1+np.abs(np.where(np.isfinite(hi), hi, 0)))
    lo = lo-tol
    lo = np.where(hi < -690, -np.inf, lo)
    return lo, hi+tol


def _pol(x, s, w):
    with np.errstate(all='ignore'):
        t = np.where(s > 0, x/(np.sqrt(2)*np.where(s > 0, s, 1)), np.sign(x)*1e9)
    return 0.5*erfc(-t)*(1-w)+0.5*erfc(t)*w


def polarity(a, sigma, w, mt):
    """a carries the observed sign"""
    u = len(a)
    s = np.asarray(sigma, dtype=float).reshape(u, 1, 1)
    w = np.broadcast_to(np.asarray(w, dtype=float), (u,)).reshape(u, 1, 1)
    x, e = amps(a, mt)
    p = np.array([_pol(x+d*e, s, w) for d in (-1, 0, 1)])
    lo, _ = _log(p.min(0))
    _, hi = _log(p.max(0))
    return _sum(lo, hi)


def _step(x):
    return np.where(x > 0, 1., np.where(x < 0, 0., 0.5))


def polarity_probability(a, pp, pn, w, mt):
    u = len(a)
    pp, pn = [np.asarray(q, dtype=float).reshape(u, 1, 1) for q in (pp, pn)]
    w = np.broadcast_to(np.asarray(w, dtype=float), (u,)).reshape(u, 1, 1)
    x, e = amps(a, mt)
    ps = []
    for d in (-1, 0, 1):
        h, hm = _step(x+d*e), _step(-x-d*e)
        ps.append((h*pp+hm*pn)*(1-w)+(h*pn+hm*pp)*w)
    ps = np.array(ps)
    lo, _ = _log(ps.min(0))
    _, hi = _log(ps.max(0))
    return _sum(lo, hi)


def ln_signed(r, mx, my, sx, sy):
    s2 = sx*sx+r*r*sy*sy
    lnK = -0.5*(mx-r*my)**2/s2-0.5*np.log(2*np.pi*s2)
    tau2 = sx*sx*sy*sy/s2
    m = (r*mx*sy*sy+my*sx*sx)/s2
    tau = np.sqrt(tau2)
    ey = tau*np.sqrt(2/np.pi)*np.exp(-m*m/(2*tau2))+m*erf(m/(tau*np.sqrt(2)))
    return lnK+np.log(ey)


def ratio(a1, a2, z, p1, p2, mt):
    u = len(a1)
    z, p1, p2 = [np.asarray(q, dtype=float).reshape(u, 1, 1) for q in (z, p1, p2)]
    (x, ex), (y, ey) = amps(a1, mt), amps(a2, mt)
    with np.errstate(all='ignore'):
        mx, my = np.abs(x), np.abs(y)
        want = np.logaddexp(ln_signed(z, mx, my, p1*mx, p2*my), ln_signed(-z, mx, my, p1*mx, p2*my))
        big = (mx-z*my)**2/(p1**2*mx**2+z**2*p2**2*my**2)
        cond = (ex/mx+ey/my)
        tol = 1e-9+6e-15*(1/p1**2+1/p2**2)+1e-10*np.abs(want)+0.5*cond*(1+np.sqrt(big)/np.minimum(p1, p2)+big)
        bad = ~np.isfinite(want) | (cond > 1e-4)
        # a modelled amplitude that is zero to rounding: anything the density could be
        tol = np.where(bad, np.inf, tol)
        lo, hi = np.where(bad, -np.inf, want-tol), np.where(bad, np.inf, want+tol)
    # a density that underflows (to a subnormal, or to zero) in linear arithmetic
    lo = np.where(want < -690, -np.inf, lo)
    hi = np.where(want < -690, hi+1+0.01*np.abs(want), hi)
    return lo.sum(0), hi.sum(0)


def location(lo, hi, weights=None, marginalise=True):
    """weighted sum over location samples (rows)"""
    if weights is not None:
        w = np.log(np.asarray(weights, dtype=float))[:, None]
        lo, hi = lo+w, hi+w
    if not marginalise:
        return lo, hi

    def lse(b):
        with np.errstate(all='ignore'):
            m = b.max(0)
            mm = np.where(np.isfinite(m), m, 0)
            return np.where(np.isposinf(m), np.inf, np.log(np.exp(b-mm).sum(0))+mm)
    lo, hi = lse(lo), lse(hi)
    tol = 1e-12*(1+np.abs(np.where(np.isfinite(hi), hi, 0)))
    return (lo-tol)[None, :], (hi+tol)[None, :]


def inside(got, lo, hi):
    with np.errstate(all='ignore'):
        return (got >= lo) & (got <= hi) & ~np.isnan(got) & ~(np.isposinf(got))
