"""C03: amplitude-ratio likelihood is the normalised density of |X/Y| for two Gaussians.

Oracle: f(r) = int |y| [N(ry)+N(-ry)] N(y) dy, evaluated by completing the square (a form that shares
nothing with Hinkley's coefficients) and itself audited against adaptive quadrature of the defining
integral. Monitors: pointwise density, total mass, sign/scale symmetry, finiteness."""
import gc
import numpy as np
from scipy.special import erf
from scipy.integrate import quad
from vpm import harness


def ln_signed(r, mx, my, sx, sy):
    """ln density of X/Y at r: K * E|y| over the product Gaussian"""
    s2 = sx*sx+r*r*sy*sy
    lnK = -0.5*(mx-r*my)**2/s2-0.5*np.log(2*np.pi*s2)
    tau2 = sx*sx*sy*sy/s2
    m = (r*mx*sy*sy+my*sx*sx)/s2
    tau = np.sqrt(tau2)
    ey = tau*np.sqrt(2/np.pi)*np.exp(-m*m/(2*tau2))+m*erf(m/(tau*np.sqrt(2)))
    return lnK+np.log(ey)


def ln_abs(r, mx, my, px, py):
    mx, my = np.abs(mx), np.abs(my)
    sx, sy = px*mx, py*my
    with np.errstate(all='ignore'):
        out = np.logaddexp(ln_signed(r, mx, my, sx, sy), ln_signed(-r, mx, my, sx, sy))
    return out


def defining_integral(r, mx, my, px, py):
    mx, my = abs(mx), abs(my)
    sx, sy = px*mx, py*my

    def g(y):
        a = (r*y-mx)/sx
        b = (-r*y-mx)/sx
        c = (y-my)/sy
        return abs(y)*(np.exp(-0.5*a*a)+np.exp(-0.5*b*b))*np.exp(-0.5*c*c)/(2*np.pi*sx*sy)
    s2 = sx*sx+r*r*sy*sy
    tau = sx*sy/np.sqrt(s2)
    pts = sorted(set([0., (r*mx*sy*sy+my*sx*sx)/s2, (-r*mx*sy*sy+my*sx*sx)/s2, my, mx/r]))
    tot = 0
    lo, hi = pts[0]-40*tau, pts[-1]+40*tau
    edges = [lo]
    for p in pts:
        for k in (-12, -4, -1, 0, 1, 4, 12):
            edges.append(p+k*tau)
    edges.append(hi)
    edges = sorted(e for e in set(edges) if lo <= e <= hi)
    for e0, e1 in zip(edges[:-1], edges[1:]):
        if e1 > e0:
            tot += quad(g, e0, e1, limit=60)[0]
    return tot


def variants(mon):
    return [None] if mon.flavour == 'py' else [None, False]


def setup():
    gc.collect()
    gc.freeze()


def tol_ln(px, py):
    c = 1/px**2+1/py**2
    return 1e-9+6e-15*c


def draw_err(r, size):
    m = r.integers(4)
    if m == 0:
        return 10**r.uniform(-5, -3, size)
    if m == 1:
        return r.choice([1e-5, 0.01, 0.1, 1., 10.], size)
    if m == 2:
        return 10**r.uniform(-2, 0, size)
    return 10**r.uniform(-5, 2, size)


def w_density(mon):
    from MTfit.probability import probability as P
    setup()
    r = mon.rng
    for it in range(mon.n(2500, 20000)):
        u = int(r.choice([1, 1, 1, 2, 4, 7]))
        v = int(r.choice([1, 1, 2, 3]))
        n = int(r.choice([1, 3, 6, 20]))
        ax = r.normal(size=(u, v, 6))*10**r.uniform(-5, 3)
        ay = r.normal(size=(u, v, 6))*10**r.uniform(-5, 3)
        mt = r.normal(size=(6, n))
        mt /= np.sqrt((mt*mt).sum(0))
        mx, my = np.einsum('uvk,kn->uvn', ax, mt), np.einsum('uvk,kn->uvn', ay, mt)
        px, py = draw_err(r, u), draw_err(r, u)
        rho = np.abs(mx/my)
        # observed ratio near the model of one of the sources, or anywhere
        z = rho[:, r.integers(v), r.integers(n)]*np.exp(r.normal(size=u)*r.choice([0., 1e-5, 1e-2, 1., 4.]))*(1+r.normal(size=u)*np.sqrt(px**2+py**2))
        z = np.abs(z)+1e-12
        e3 = (slice(None), None, None)
        want = ln_abs(z[e3], mx, my, px[e3], py[e3])
        # amplitudes lose relative accuracy by cancellation in a.mt: propagate it
        condx = np.einsum('uvk,kn->uvn', np.abs(ax), np.abs(mt))/np.abs(mx)
        condy = np.einsum('uvk,kn->uvn', np.abs(ay), np.abs(mt))/np.abs(my)
        with np.errstate(all='ignore'):
            dev = np.abs(np.log(z[e3]/rho))
            big = (mx-0)**2*0+((np.abs(mx)-z[e3]*np.abs(my))**2/(px[e3]**2*mx**2+z[e3]**2*py[e3]**2*my**2))
        tol = tol_ln(px, py)[e3]+1e-15*(condx+condy)*(1+np.sqrt(big)/np.minimum(px, py)[e3]+big)+1e-10*np.abs(want)
        mon.case([ax, ay, mt, z, px, py], sample=dict(ratio=z, error_x=px, error_y=py, model_x=mx[:, 0, 0], model_y=my[:, 0, 0]))
        mon.event('small_errors', int((px < 1e-4).any()))
        W, T = want.sum(0), tol.sum(0)
        for uc in variants(mon):
            kw = {} if uc is None else {'_use_c': uc}
            got = np.asarray(mon.call('accepts', P.amplitude_ratio_ln_pdf, z.copy(), mt.copy(), ax.copy(), ay.copy(), px.copy(), py.copy(), **kw))
            d = dict(ratio=z, error_x=px, error_y=py, model_x=mx, model_y=my, use_c=str(uc))
            if not mon.check(got.size == v*n, 'shape', got=got.shape, want=(v, n)):
                continue
            got = got.reshape(v, n)
            mon.check(not np.isnan(got).any() and not (got == np.inf).any(), 'finite_no_nan', n=got.size, got=got, **d)
            with np.errstate(all='ignore'):
                ok = np.abs(got-W) <= T
                # exp underflow of a station's density
                ok |= (want.min(0) < -690) & ((got == -np.inf) | (np.abs(got-W) <= 1+T+0.01*np.abs(W)))
            mon.check(ok.all(), 'pointwise_density', n=got.size, got=got[~ok][:3], want=W[~ok][:3], tol=T[~ok][:3], **d)
            mon.event('resolved_points', int((want.min(0) > -690).sum()))
            if it % 5 == 0:
                sx, sy = r.choice([-1., 1.], (u, 1, 1)), r.choice([-1., 1.], (u, 1, 1))
                g2 = np.asarray(mon.call('accepts', P.amplitude_ratio_ln_pdf, z.copy(), mt.copy(), ax*sx, ay*sy, px.copy(), py.copy(), **kw)).reshape(v, n)
                mon.close(g2, got, 'magnitudes_only', rtol=1e-12, atol=1e-12, **d)
                g3 = np.asarray(mon.call('accepts', P.amplitude_ratio_ln_pdf, z.copy(), -mt, ax.copy(), ay.copy(), -px, py.copy(), **kw)).reshape(v, n)
                mon.close(g3, got, 'magnitudes_only', rtol=1e-12, atol=1e-12, **d)


def panels(rho, px, py):
    w = np.sqrt(px*px+py*py)
    edges = set()
    for c in (1.,):
        for k in (0, .25, .5, 1, 1.5, 2, 3, 4, 5, 6, 8, 12, 20):
            for s in (-1, 1):
                edges.add(c*(1+s*k*w))
    edges |= set(np.logspace(-7, 7, 57))
    edges = np.array(sorted(e for e in edges if 1e-7 <= e <= 1e7))
    edges = np.concatenate([[0.], edges])
    return edges*rho


GL = np.polynomial.legendre.leggauss(8)


def w_mass(mon):
    from MTfit.probability import probability as P
    setup()
    r = mon.rng
    for it in range(mon.n(14, 120)):
        mx, my = (10**r.uniform(-4, 2, 2))*r.choice([-1, 1], 2)
        px, py = [float(x) for x in draw_err(r, 2)]
        if it == 0:
            px = py = 1e-5
        e = panels(abs(mx/my), px, py)
        nodes = ((e[1:, None]+e[:-1, None])+(e[1:, None]-e[:-1, None])*GL[0][None, :])/2
        wts = (e[1:, None]-e[:-1, None])/2*GL[1][None, :]
        rr, ww = nodes.flatten(), wts.flatten()
        ref = np.exp(ln_abs(rr, mx, my, px, py))
        refmass = (ref*ww).sum()
        # tail beyond the last edge (density ~ C/r^2)
        tail = ref[-1]*rr[-1]
        mon.check(abs(refmass+tail-1) < 2e-3, 'oracle_integrates_to_one', px=px, py=py, mass=refmass, tail=tail)
        # audit the oracle against the defining integral
        for q in r.choice(len(rr), 6):
            if ref[q] > 1e-200:
                di = defining_integral(rr[q], mx, my, px, py)
                mon.check(abs(di-ref[q]) <= 1e-6*max(ref[q], di)+1e-290, 'oracle_is_defining_integral', di=di, ref=ref[q], r=rr[q], mx=mx, my=my, px=px, py=py)
        mon.case([mx, my, px, py], sample=dict(model_x=mx, model_y=my, error_x=px, error_y=py, nodes=len(rr)))
        a = np.zeros((1, 1, 6))
        a[0, 0, 0] = mx
        b = np.zeros((1, 1, 6))
        b[0, 0, 0] = my
        mt = np.zeros((6, 1))
        mt[0, 0] = 1
        for uc in variants(mon):
            kw = {} if uc is None else {'_use_c': uc}
            ln = np.array([float(np.asarray(P.amplitude_ratio_ln_pdf(np.array([q]), mt, a, b, np.array([px]), np.array([py]), **kw)).flatten()[0]) for q in rr])
            f = np.exp(ln)
            mon.check((f >= 0).all() and np.isfinite(f).all(), 'non_negative_finite', n=len(f), px=px, py=py)
            mass = (f*ww).sum()
            mon.check(abs(mass-refmass) < 1e-4, 'integrates_to_one', mass=mass, reference=refmass, tail=tail, px=px, py=py, mx=mx, my=my, use_c=str(uc))
        # the signed-ratio helper
        s = np.array(P.ratio_pdf(rr, abs(mx), abs(my), px*abs(mx), py*abs(my)))
        s2 = np.array(P.ratio_pdf(-rr, abs(mx), abs(my), px*abs(mx), py*abs(my)))
        mon.check(abs(((s+s2)*ww).sum()-refmass) < 1e-4, 'ratio_pdf_mass', mass=((s+s2)*ww).sum(), px=px, py=py)
        with np.errstate(all='ignore'):
            want = np.exp(ln_signed(rr, abs(mx), abs(my), px*abs(mx), py*abs(my)))
        mon.close(s, want, 'ratio_pdf_pointwise', rtol=10*tol_ln(px, py)+1e-6, atol=1e-280, px=px, py=py)


def w_extreme(mon):
    """finite and NaN-free from 1e-5 upwards; degenerate modelled amplitudes have no density at r>0"""
    from MTfit.probability import probability as P
    setup()
    r = mon.rng
    for it in range(mon.n(2500, 15000)):
        u = int(r.choice([1, 2, 3]))
        px, py = r.choice([1e-5, 1e-4, 1e-2, 1., 1e2, 1e4], u), r.choice([1e-5, 1e-4, 1e-2, 1., 1e2, 1e4], u)
        z = 10**r.uniform(-8, 8, u)
        mx, my = 10**r.uniform(-10, 6, u), 10**r.uniform(-10, 6, u)
        near = r.random() < 0.5
        if near:
            z = mx/my*(1+0.3*px*r.normal(size=u))
            z = np.abs(z)+1e-300
        kz = r.integers(8)
        if kz == 0:
            mx[r.integers(u)] = 0.
        elif kz == 1:
            my[r.integers(u)] = 0.
        elif kz == 2:
            mx[0] = my[0] = 0.
        a = np.zeros((u, 1, 6))
        b = np.zeros((u, 1, 6))
        a[:, 0, 2] = mx
        b[:, 0, 2] = my
        mt = np.zeros((6, 1))
        mt[2] = 1
        mon.case([z, mx, my, px, py])
        for uc in variants(mon):
            kw = {} if uc is None else {'_use_c': uc}
            g = np.asarray(mon.call('accepts', P.amplitude_ratio_ln_pdf, z.copy(), mt.copy(), a.copy(), b.copy(), px.copy(), py.copy(), **kw)).flatten()
            d = dict(ratio=z, mx=mx, my=my, px=px, py=py, use_c=str(uc), got=g)
            mon.check(not np.isnan(g).any() and not (g == np.inf).any(), 'finite_no_nan', **d)
            if (mx == 0).any() or (my == 0).any():
                mon.check(g[0] == -np.inf, 'degenerate_has_no_density', **d)
                mon.event('degenerate')
            else:
                w = ln_abs(z, mx, my, px, py)
                if w.min() > -690:
                    mon.check(abs(g[0]-w.sum()) <= tol_ln(px, py).sum()+1e-9*np.abs(w).sum(), 'pointwise_density', want=w.sum(), **d)


W = {
    'density': dict(fn=w_density, shards={'quick': 1, 'thorough': 4}, need={'pointwise_density': 5000, 'resolved_points': 2000, 'magnitudes_only': 500, 'small_errors': 50}),
    'mass': dict(fn=w_mass, shards={'quick': 2, 'thorough': 4}, need={'integrates_to_one': 10, 'oracle_is_defining_integral': 20}),
    'extreme': dict(fn=w_extreme, shards={'quick': 1, 'thorough': 2}, need={'finite_no_nan': 1000, 'degenerate': 100}),
}
if __name__ == '__main__':
    harness.main('C03', __file__, W, rule='random modelled amplitudes over 8 decades, fractional uncertainties 1e-5..1e2, observed ratios at, near and far from the model; '
                 'Gauss-Legendre panels over r for the mass; a case is one argument set, distinct by its bytes')
