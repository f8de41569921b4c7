"""C04: log-domain marginalisation and normalisation.

Every returned array is compared, entry by entry, with the log-sum-exp evaluated in extended precision
around each output's own maximum; plus shift-equivariance, unit mass, support and input-preservation
monitors, for the functions and the LnPDF wrappers, on log-values in [-1e5, 1e4]."""
import numpy as np
from vpm import harness

L = np.longdouble


def lse(a, axis):
    a = np.asarray(a, dtype=L)
    m = np.max(a, axis=axis, keepdims=True)
    mm = np.where(np.isfinite(m), m, 0)
    with np.errstate(all='ignore'):
        return np.squeeze(np.log(np.sum(np.exp(a-mm), axis=axis, keepdims=True))+mm, axis=axis)


def gen(mon):
    r = mon.rng
    u = int(r.choice([1, 2, 3, 7, 20]))
    n = int(r.choice([1, 2, 5, 40, 200]))
    mode = r.integers(9)
    if mode == 0:
        a = r.uniform(-1e5, 1e4, size=(u, n))
    elif mode == 1:
        a = r.normal(size=(u, n))*3 + r.uniform(-1e5, 1e4)
    elif mode == 2:
        a = r.normal(size=(u, n)) - r.choice([710., 745., 800., 1e3, 3e4])*np.ones((1, n))
    elif mode == 3:
        a = r.normal(size=(u, n)) + r.choice([700., 709.7, 710., 1e3, 9e3])
    elif mode == 4:
        a = r.normal(size=(u, n))*10**r.uniform(0, 4)
        a = np.clip(a, -1e5, 1e4)
    elif mode == 5:
        a = r.normal(size=(u, n)) + r.uniform(-1e4, 1e4, size=(1, n))
    elif mode == 6:
        a = r.normal(size=(u, n)) + r.uniform(-1e4, 1e4, size=(u, 1))
    elif mode == 7:
        a = np.round(r.normal(size=(u, n)))*0. + r.choice([0., -1., 5., -1e5])
    else:
        a = r.normal(size=(u, n))*5
    zm = r.integers(7)
    if zm == 0:
        a[r.random((u, n)) < 0.5] = -np.inf
    elif zm == 1:
        a[:] = -np.inf
    elif zm == 2:
        a[:, r.random(n) < 0.5] = -np.inf
    elif zm == 3:
        a[r.random(u) < 0.5] = -np.inf
    dV = float(r.choice([1., 1., 2., 0.5, 1e-6, 3.7, 1e4]))
    return a, dV


FORMS = ['array', 'matrix', 'lnpdf', 'fortran', 'strided']


def form(a, how):
    from MTfit.probability import LnPDF
    if how == 'matrix':
        return np.matrix(a)
    if how == 'lnpdf':
        return LnPDF(np.matrix(a))
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.empty((a.shape[0], 2*a.shape[1]))
        b[:, ::2] = a
        return b[:, ::2]
    return a.copy()


def tol(a):
    f = np.abs(a[np.isfinite(a)])
    m = f.max() if f.size else 1.
    return 4e-16*m+1e-12


def raw(x):
    return np.asarray(getattr(x, '_ln_pdf', x), dtype=float)


def untouched(mon, obj, a, what):
    b = raw(obj).reshape(a.shape)
    mon.check(((b == a) | (np.isnan(b) & np.isnan(a))).all(), 'input_not_modified', what=what, before=a, after=b)


def same(mon, rule, got, want, t, **d):
    got = raw(got).flatten()
    want = np.asarray(want, dtype=L).flatten()
    if not mon.check(got.size == want.size, rule+'_size', got=got, want=want.astype(float), **d):
        return False
    mon.check(not np.isnan(got).any() and not (got == np.inf).any(), 'no_nan_no_plus_inf', n=got.size, got=got, **d)
    return mon.close(got, want.astype(float), rule, rtol=0, atol=t, **d)


def w_marginalise(mon):
    from MTfit.probability import probability as P
    from MTfit.probability import LnPDF
    r = mon.rng
    for it in range(mon.n(4000, 40000)):
        a, dV = gen(mon)
        axis = int(r.integers(2))
        how = FORMS[int(r.integers(len(FORMS)))]
        x = form(a, how)
        want = lse(a, axis)+np.log(L(dV))
        d = dict(a=a, dV=dV, axis=axis, form=how)
        mon.case([a, dV, axis, how], sample=d)
        fin = np.isfinite(a)
        mon.event('some_minus_inf', int((~fin).any()))
        mon.event('all_minus_inf', int((~fin).all()))
        mon.event('large_positive', int((a > 709).any()))
        mon.event('large_negative', int((fin & (a < -745)).any()))
        got = mon.call('marginalise_accepts', P.ln_marginalise, x, axis=axis, dV=dV)
        untouched(mon, x, a, 'ln_marginalise')
        same(mon, 'marginalise_exact', got, want, tol(a), **d)
        # the row-subset (support) monitor: exact zeros and only they are zero
        mon.check(((raw(got).flatten() == -np.inf) == (~fin).all(axis)).all(), 'zero_iff_all_zero', n=want.size, got=got, **d)
        c = float(r.choice([-1000., 500., 3.25, -5e4]))
        g2 = mon.call('marginalise_accepts', P.ln_marginalise, form(a+c, how), axis=axis, dV=dV)
        with np.errstate(all='ignore'):
            same(mon, 'marginalise_commutes_with_constant', g2, raw(got).flatten()+c, tol(a)+tol(np.array([c, 0]))*3, c=c, **d)
        # wrapper
        o = LnPDF(np.matrix(a), dV=dV)
        m = mon.call('wrapper_accepts', o.marginalise, axis=axis)
        same(mon, 'wrapper_marginalise_exact', m, want, tol(a), **d)
        mon.check(m.dV == dV, 'wrapper_keeps_dV', got=m.dV, **d)
        untouched(mon, o, a, 'LnPDF.marginalise')


def w_normalise(mon):
    from MTfit.probability import probability as P
    from MTfit.probability import LnPDF
    r = mon.rng
    for it in range(mon.n(4000, 40000)):
        a, dV = gen(mon)
        how = FORMS[int(r.integers(len(FORMS)))]
        if r.random() < 0.4:
            a = a[:1]
        if r.random() < 0.4 and how in ('array', 'strided'):
            a = a[0]
            x = form(a[None, :], how)[0]
        else:
            x = form(a, how)
        c = float(r.choice([-1000., 500., 3.25, -5e4]))
        mon.case([a, dV, how], sample=dict(a=a, dV=dV, form=how))
        mon.event('single_element', int(a.size == 1))
        mon.event('two_rows_or_more', int(a.ndim == 2 and a.shape[0] > 1))
        for name, f, arg in (('ln_normalise', lambda y: P.ln_normalise(y, dV), x),
                             ('LnPDF.normalise', lambda y: y.normalise(), LnPDF(np.matrix(a), dV=dV)),
                             ('LnPDF.normalise(dV)', lambda y: y.normalise(dV=dV), LnPDF(np.matrix(a)))):
            d = dict(a=a, dV=dV, form=how, via=name)
            got = mon.call('normalise_accepts', f, arg)
            untouched(mon, arg, a, name)
            g = raw(got)
            if a.ndim == 2 and a.shape[0] > 1 and a.shape[1] > 1:
                mon.check(g.shape == a.shape, 'normalise_keeps_shape', got=g.shape, **d)
            if not np.isfinite(a).any():
                mon.check((g == -np.inf).all() and g.size == a.size, 'all_zero_stays_zero', got=g, **d)
                continue
            want = np.asarray(a, dtype=L).flatten()-lse(a.flatten(), 0)-np.log(L(dV))
            t = tol(a)*2
            if same(mon, 'normalise_exact', g, want, t, **d):
                mass = np.sum(np.exp(g.astype(L)))*dV
                mon.close(mass, 1., 'unit_mass', rtol=0, atol=t*2+1e-12*g.size, **d)
            if name != 'ln_normalise':
                mon.check(got.dV == dV, 'wrapper_keeps_dV', got=got.dV, **d)
        g1 = raw(P.ln_normalise(form(np.atleast_2d(a), 'matrix'), dV))
        g2 = raw(mon.call('normalise_accepts', P.ln_normalise, form(np.atleast_2d(a)+c, 'matrix'), dV))
        if np.isfinite(a).any():
            same(mon, 'normalise_unchanged_by_constant', g2, g1, tol(a)*2+tol(np.array([c]))*3, a=a, c=c, dV=dV)
        # output(): marginalised, then normalised
        o = LnPDF(np.matrix(a), dV=dV)
        out = mon.call('wrapper_accepts', o.output)
        aa = np.atleast_2d(a)
        if np.isfinite(a).any():
            w = lse(aa, 0)
            w = w-lse(w, 0)-np.log(L(dV))
            same(mon, 'output_exact', out, w, tol(a)*3, a=a, dV=dV)
            un = mon.call('wrapper_accepts', o.output, False)
            same(mon, 'output_unnormalised_exact', un, lse(aa, 0)+np.log(L(dV)), tol(a)*2, a=a, dV=dV)
            # nonzero, argmax and max follow the marginalised values
            nz = mon.call('wrapper_accepts', o.nonzero)
            mon.check(sorted(np.asarray(nz).flatten().tolist()) == np.nonzero(np.isfinite(aa).any(0))[0].tolist(), 'nonzero_is_support', got=nz, a=a)
            ex = raw(mon.call('wrapper_accepts', out.exp)).flatten()
            mon.close(ex.sum()*dV, 1., 'exp_of_output_unit_mass', rtol=0, atol=1e-9, a=a, dV=dV, exps=ex)


W = {
    'marginalise': dict(fn=w_marginalise, flavours=['py', 'c', 'san'], shards={'quick': 1, 'thorough': 3},
                        need={'marginalise_exact': 1000, 'all_minus_inf': 20, 'some_minus_inf': 100, 'large_positive': 100, 'large_negative': 100}),
    'normalise': dict(fn=w_normalise, flavours=['py', 'c', 'san'], shards={'quick': 1, 'thorough': 3},
                      need={'normalise_exact': 1000, 'unit_mass': 1000, 'single_element': 20, 'two_rows_or_more': 100, 'all_zero_stays_zero': 20}),
}

if __name__ == '__main__':
    harness.main('C04', __file__, W, rule='an observation is one (values, -inf pattern, dV, axis, memory layout) input; distinct by content',
                 assumptions=['a 1-D array passed to ln_marginalise with axis 0 is a PDF that is already marginal (identity), as LnPDF relies on',
                              'with every entry -inf there is nothing to normalise: the oracle asks for all -inf'])
