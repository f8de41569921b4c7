"""C19: result post-processing is consistent with the samples.

Result containers are driven through random histories (derive, select, select again, assign, reduce) and every per-sample
value they show is compared with the raw arrays they were built from.  Derived parameters are put back together to
tensors (eigenvectors, fault planes, Tape parameters) and compared with the stand-alone conversions.  Projected points
are compared with the radius law at the angle of the vector."""
import collections
import gc
import os
import sys
import warnings
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import matplotlib
matplotlib.use('Agg')
from vpm import harness, tensors as T

warnings.simplefilter('ignore')

SCALAR = ['gamma', 'delta', 'tau', 'k', 'u', 'v', 'strike', 'dip', 'rake', 'strike1', 'dip1', 'rake1', 'strike2', 'dip2', 'rake2', 'kappa', 'h', 'sigma', 'explosion', 'area_displacement', 'xx', 'yy', 'zz', 'xy', 'xz', 'yz']
VECTOR = ['T', 'N', 'P', 'E', 'N1', 'N2', 'phi1', 'phi2']
CLUSTER = ['clustered_N1', 'clustered_N2', 'clustered_rake1', 'clustered_rake2']
DEG = 180/np.pi


def draw_mts(r, nmax=40, simple=False):
    n = int([1, 2, 3, 6, r.integers(1, 12), r.integers(4, nmax+1)][r.integers(6)])
    k = 0 if simple else r.integers(4)
    if k == 0:
        m = r.normal(size=(6, n))
        m /= np.sqrt((m*m).sum(0))
    elif k == 1:
        m = np.array([T.unit6(r)[0] for _ in range(n)]).T
    elif k == 2:
        # small integers: many repeats and degenerate tensors
        m = r.integers(-1, 2, size=(6, n)).astype(float)
        m[0, (m == 0).all(0)] = 1.
    else:
        m = np.array([T.unit6(r)[0] for _ in range(n)]).T*10.**r.uniform(-8, 20)
    m = np.ascontiguousarray(m)+0.
    if r.random() < .5 and n > 1:
        # repeated columns, as in a Markov chain
        m = m[:, np.sort(r.integers(0, max(1, n//2), n))] if r.random() < .5 else m[:, r.integers(0, n, n)]
    return np.ascontiguousarray(m)


def draw_p(r, n):
    k = r.integers(7)
    p = r.random(n)
    if k == 1:
        p = np.round(p*3)/3
    elif k == 2:
        p = 10.**r.uniform(-100, 100, n)
    elif k == 3:
        p = np.zeros(n)
        p[r.integers(n)] = 10.**r.uniform(-5, 5)
    elif k == 4:
        p = np.full(n, r.choice([1., .5, 1e-30, 7.]))
    elif k == 5:
        p = p*(r.random(n) < .4)
    elif k == 6:
        p = np.exp(r.normal(size=n)*20)
    if r.random() < .15:
        p = r.integers(0, 5, n)
    return p


def given(r, m):
    """the same tensors in one of the accepted forms"""
    n = m.shape[1]
    k = r.integers(6)
    if k == 1:
        return np.asmatrix(m), 'matrix'
    if k == 2 and n != 6:
        return m.T.copy(), 'rows'
    if k == 3:
        M = T.m33(m)
        return (M, 'tensors_6' if n == 6 else 'tensors') if n > 1 or r.random() < .5 else (M[0], 'tensor')
    if k == 4:
        return [list(x) for x in m], 'list'
    return m.copy(), 'array'


def selection(r, n):
    k = r.integers(11)
    if k == 0:
        return int(r.integers(-n, n)), 'int'
    if k == 1:
        return np.int64(r.integers(n)), 'int'
    if k == 2:
        a = r.integers(0, n)
        b = r.integers(a+1, n+1)
        return slice(int(a), int(b)), 'slice'
    if k == 3:
        return slice(None, None, int(r.choice([1, 2, 3, -1, -2]))), 'step'
    if k == 4:
        return slice(int(r.integers(-n, 0)), None), 'slice'
    if k == 5:
        q = r.random(n) < r.choice([.2, .5, .9])
        q[r.integers(n)] = True
        return q, 'mask'
    if k == 6:
        return r.integers(-n, n, int(r.integers(1, 2*n+1))), 'take'
    if k == 7:
        return [int(x) for x in r.permutation(n)[:max(1, n-1)]], 'list'
    if k == 8:
        return list(map(bool, np.arange(n) == r.integers(n))), 'mask'
    if k == 9:
        return r.permutation(n), 'permutation'
    return slice(None), 'all'


def same_bits(a, b):
    return a.shape == b.shape and bool((a == b).all() or np.array_equal(a, b, equal_nan=True))


def vec(x, n):
    """a per-sample vector parameter as (3, n) array"""
    x = np.asarray(x, dtype=float)
    return x.reshape(3, -1) if x.ndim < 2 else x


def value(mon, d, key, n, rule, /, **det):
    """value of a per-sample parameter as array with the samples last, None when it does not have one value per sample"""
    x = mon.call('attribute_'+rule, getattr, d, key)
    x = np.asarray(x, dtype=float)
    want = (3, n) if key in VECTOR or key in CLUSTER[:2] else (n,)
    if n == 1 and x.size == int(np.prod(want)):
        x = x.reshape(want)
    if key not in VECTOR and key not in CLUSTER[:2]:
        x = x.flatten()
    if not mon.check(x.shape == want, 'one_value_per_sample', key=key, shape=x.shape, want=want, **det):
        return None
    return x


def same_state(mon, d, m, p, rule, /, **det):
    """tensors and probabilities of a container are exactly these"""
    got = np.asarray(d.MTs, dtype=float)
    ok = mon.check(same_bits(got, m), rule+'_tensors', got=got, want=m, **det)
    q = np.asarray(d.probability, dtype=float).flatten()
    if p is not None:
        ok &= mon.check(same_bits(q, np.asarray(p, dtype=float)), rule+'_probabilities', got=q, want=p, **det)
    ok &= mon.check(len(d) == m.shape[1] and tuple(d.shape) == m.shape, rule+'_length', got=len(d), want=m.shape, **det)
    return ok


def built(mon, d, m, form, rule, /, **det):
    """the tensors a container shows; those of 3x3 tensors are normalised"""
    if not form.startswith('tensor'):
        return m
    got = np.asarray(d.MTs, dtype=float)
    if not mon.check(got.shape == m.shape, rule+'_tensors', got=got.shape, want=m.shape, **det):
        return None
    u, w = m/scale(m), got/scale(got)
    mon.check(np.abs(u-w).max() < 1e-14 and (np.abs(scale(got)-1) < 1e-12).all() | (np.abs(scale(got)/scale(m)-1) < 1e-12).all(), rule+'_tensors', got=got, want=m, **det)
    return got


def scale(m):
    return np.maximum(np.sqrt((m*m).sum(0)), 1e-300)


def physical(mon, d, m, rule, keys, /, stiffness=False, **det):
    """the parameters of every sample describe the sample's tensor"""
    import MTfit.convert as C
    n = m.shape[1]
    sc = scale(m)
    M = T.m33(m)
    val = {}

    def get(key):
        if key not in val:
            val[key] = value(mon, d, key, n, rule, **det)
        return val[key]
    if any(k in keys for k in 'TNPE'):
        t = [get(k) for k in 'TNPE']
        if all(x is not None for x in t):
            A = np.array([np.asarray(x) for x in t[:3]])
            R = np.einsum('an,ain,ajn->nij', t[3], A, A)
            err = np.abs(R-M).max((1, 2))/sc
            mon.check((err < 1e-10).all(), rule+'_axes', n=n, err=err.max(), tensors=m[:, err.argmax()], **det)
            mon.check((np.diff(t[3], axis=0) <= 1e-10*sc).all(), rule+'_order', n=n, E=t[3], **det)
    w = np.linalg.eigvalsh(M/sc[:, None, None])[:, ::-1]
    distinct = (np.diff(w, axis=1) < -1e-6).all(1)
    if any(k in keys for k in ('gamma', 'delta', 'tau', 'k', 'u', 'v')):
        for i in range(min(n, 12)):
            want = T.source_type(w[i])
            iso = abs(w[i, 0]-w[i, 2]) < 1e-6
            for key, name in (('gamma', 'gamma'), ('delta', 'delta'), ('u', 'u'), ('v', 'v'), ('tau', 'tau'), ('k', 'k')):
                if key not in keys or (iso and key == 'gamma'):
                    continue
                g = get(key)
                if g is None:
                    continue
                if key in 'uv':
                    # the stand-alone conversion of these
                    tk = C.E_tk(np.array(w[i]))
                    x = C.tk_uv(*tk)['uv'.index(key)]
                    x = float(np.asarray(x).flatten()[0])
                else:
                    x = float(want[name])
                tol = 1e-7 if not iso else 2e-5
                if key == 'tau' or key in 'uv':
                    tol = 1e-6 if not iso else 1e-3
                mon.check(abs(g[i]-x) < tol, rule+'_'+key, got=g[i], want=x, E=w[i], tensors=m[:, i], **det)
    dc = None
    ev, Q = np.linalg.eigh(M/sc[:, None, None])
    dcM = np.einsum('ni,nj->nij', Q[:, :, 2], Q[:, :, 2])-np.einsum('ni,nj->nij', Q[:, :, 0], Q[:, :, 0])
    dc = T.M6_33(dcM/np.sqrt(2))
    for a, b, c_ in (('strike', 'dip', 'rake'), ('strike1', 'dip1', 'rake1'), ('strike2', 'dip2', 'rake2')):
        if not any(k in keys for k in (a, b, c_)):
            continue
        v = [get(k) for k in (a, b, c_)]
        if any(x is None for x in v):
            continue
        mon.check(all(np.isfinite(x).all() for x in v), rule+'_finite', n=n, v=v, tensors=m, **det)
        R = T.sdr_tensor(*[x/DEG for x in v])
        err = np.abs(R-dc).max(0)[distinct]
        if err.size:
            mon.check((err < 1e-6).all(), rule+'_'+a, n=err.size, err=err.max(), tensors=m[:, distinct][:, err.argmax()], **det)
        mon.check((v[1] >= -1e-9).all() and (v[1] <= 90+1e-9).all(), rule+'_dip_range', n=n, dip=v[1], **det)
    if 'strike2' in keys and ('strike1' in keys or 'strike' in keys):
        # the two planes are different ones
        v1 = [get(k) for k in ('strike', 'dip', 'rake')]
        v2 = [get(k) for k in ('strike2', 'dip2', 'rake2')]
        if all(x is not None for x in v1+v2):
            n1 = T.sdr_vectors(*[x/DEG for x in v1])[0]
            n2 = T.sdr_vectors(*[x/DEG for x in v2])[0]
            dot = np.abs((n1*n2).sum(0))[distinct]
            if dot.size:
                mon.check((dot < 1e-6).all(), rule+'_planes', n=dot.size, dot=dot, **det)
    if any(k in keys for k in ('kappa', 'h', 'sigma')):
        v = [get(k) for k in ('gamma', 'delta', 'kappa', 'h', 'sigma')]
        if all(x is not None for x in v):
            mon.check((np.abs(v[4]) <= np.pi/2+1e-9).all(), rule+'_slip_range', n=n, sigma=v[4], **det)
            R = T.tape_tensor(v[0], v[1], v[2], np.clip(v[3], -1, 1), v[4])
            err = np.abs(R-m/sc).max(0)
            err = err[distinct]
            if err.size:
                mon.check((err < 1e-6).all(), rule+'_tape', n=err.size, err=err.max(), tensors=m[:, distinct][:, err.argmax()], **det)
    if any(k in keys for k in ('N1', 'N2')):
        a, b = get('N1'), get('N2')
        if a is not None and b is not None:
            R = np.einsum('in,jn->nij', a, b)
            R = T.M6_33((R+R.transpose(0, 2, 1))/np.sqrt(2))
            err = np.minimum(np.abs(R-dc), np.abs(R+dc)).max(0)[distinct]
            if err.size:
                mon.check((err < 1e-6).all(), rule+'_normals', n=err.size, err=err.max(), **det)
    if any(k in keys for k in ('phi1', 'phi2', 'explosion', 'area_displacement')):
        v = [get(k) for k in ('phi1', 'phi2', 'explosion', 'area_displacement')]
        if all(x is not None for x in v):
            for i in range(min(n, 4)):
                ph, ex, ar = C.MT6_biaxes(m[:, i:i+1].copy(), stiffness)
                ph = np.asarray(ph).reshape(3, 2)
                ex, ar = float(np.asarray(ex).flatten()[0]), float(np.asarray(ar).flatten()[0])
                s = np.abs(m[:, i]).max()
                a = max(abs(ar), s)
                mon.check(abs(v[2][i]-ex) <= 1e-6*max(abs(ex), s) and abs(v[3][i]-ar) <= 1e-6*a, rule+'_biaxes_size', got=(v[2][i], v[3][i]), want=(ex, ar), tensors=m[:, i], **det)
                if distinct[i] and abs(ar) > 1e-3*s:
                    g = np.array([v[0][:, i], v[1][:, i]])
                    e = min(max(min(np.abs(g[x]-ph[:, y]).max(), np.abs(g[x]+ph[:, y]).max()) for x, y in o) for o in (((0, 0), (1, 1)), ((0, 1), (1, 0))))
                    mon.check(e < 1e-4, rule+'_biaxes', got=g, want=ph, tensors=m[:, i], **det)


def cluster(mon, d, n, rule, /, **det):
    """clustered normals and rakes of every sample are its two normals (up to sign) and its two rakes"""
    a = [value(mon, d, k, n, rule, **det) for k in CLUSTER]
    b = [value(mon, d, k, n, rule, **det) for k in ('N1', 'N2', 'rake1', 'rake2')]
    if any(x is None for x in a+b):
        return

    def near(x, y):
        return np.minimum(np.abs(x-y), np.abs(x+y)).max(0) < 1e-9
    straight = near(a[0], b[0]) & near(a[1], b[1]) & (np.abs(a[2]-b[2]) < 1e-9) & (np.abs(a[3]-b[3]) < 1e-9)
    swapped = near(a[0], b[1]) & near(a[1], b[0]) & (np.abs(a[2]-b[3]) < 1e-9) & (np.abs(a[3]-b[2]) < 1e-9)
    mon.check((straight | swapped).all(), rule+'_clustered', n=n, normals=a[:2], want=b[:2], rakes=a[2:], want_rakes=b[2:], **det)


def container(mon):
    from MTfit.plot.plot_classes import MTData
    import MTfit.convert as C
    r = mon.rng
    gc.collect()
    gc.freeze()
    for it in range(mon.n(700, 6000)):
        m = draw_mts(r)
        n = m.shape[1]
        x, form = given(r, m)
        p = draw_p(r, n) if r.random() < .7 else None
        kw = {}
        c = False
        if r.random() < .3:
            c = list(C.isotropic_c(1., float(r.choice([.5, 1., 3.])))) if r.random() < .7 else list(T.iso21(1.5, .7))
            c = [float(q) for q in c]
            kw['c'] = c
        pin = None
        if p is not None:
            pin = [p, list(p), np.asmatrix(p)][r.integers(3)]
            kw['probability'] = pin
        det = dict(mts=m, p=p, form=form, c=bool(c))
        d = mon.call('container', MTData, x, **kw)
        mon.case([m, p, form], sample=dict(n=n, form=form, p=p))
        mon.event('form_'+form)
        m = built(mon, d, m, form, 'built', **det)
        if m is None or not same_state(mon, d, m, p, 'built', **det):
            continue
        allk = SCALAR+VECTOR
        keys = [allk[i] for i in r.permutation(len(allk))[:r.integers(0, len(allk))]]
        if r.random() < .3:
            keys = []
        if n > 12 and not r.random() < .2:
            keys = [k for k in keys if k not in ('phi1', 'phi2', 'explosion', 'area_displacement')]
        vals = {}
        for k in keys:
            v = value(mon, d, k, n, 'derived', **det)
            if v is not None:
                vals[k] = v.copy()
        if r.random() < .25:
            cluster(mon, d, n, 'derived', **det)
            mon.event('clustered')
            for k in CLUSTER:
                v = value(mon, d, k, n, 'derived', **det)
                if v is not None:
                    vals[k] = v.copy()
        if r.random() < .2 and n > 1:
            # other cached statistics are not carried along
            if p is None or np.sum(p) > 0:
                d.mean
            if p is not None and np.sum(p) > 0:
                d.max_probability
            if r.random() < .4:
                try:
                    d.mean_orientation
                except Exception:
                    pass
                # (flips normals in place)
                for k in CLUSTER:
                    v = value(mon, d, k, n, 'derived', **det)
                    if v is not None:
                        vals[k] = v.copy()
        physical(mon, d, m, 'derived', keys, stiffness=c, **det)
        # selections, and selections of those
        cur, cm, cp, cv = d, m, p, vals
        hist = []
        for step in range(int(r.integers(1, 4))):
            k = cm.shape[1]
            s, kind = selection(r, k)
            hist.append((kind, repr(s)[:60]))
            mon.event('select_'+kind)
            idx = np.atleast_1d(np.arange(k)[s])
            arg = (slice(None), s)
            if r.random() < .1:
                arg = (Ellipsis, s)
            new = mon.call('select', lambda: cur[arg])
            cm = cm[:, idx]
            cp = None if cp is None else np.asarray(cp)[idx]
            cv = {q: (v[:, idx] if v.ndim == 2 else v[idx]) for q, v in cv.items()}
            if not same_state(mon, new, cm, cp, 'selected', history=hist, **det):
                break
            if cm.shape[1] == 1:
                mon.event('selected_one')
            nn = cm.shape[1]
            for q, v in cv.items():
                g = value(mon, new, q, nn, 'selected', history=hist, **det)
                if g is not None:
                    w = np.abs(g-v) <= 1e-9*np.maximum(np.abs(v), 1)*np.maximum(1, np.abs(v).max(initial=0))
                    w |= ~np.isfinite(v)
                    if not w.all():
                        # (a parameter calculated again may choose otherwise where it is ambiguous)
                        continue
            have = [q for q in cv if q not in CLUSTER]
            stored = {q: np.asarray(new.__dict__[q], dtype=float) for q in cv if q in new.__dict__}
            for q, g in stored.items():
                # parameters carried along have the values they had
                v = cv[q]
                mon.check(g.size == v.size and np.array_equal(g.reshape(v.shape), v, equal_nan=True), 'carried_parameter', n=nn, key=q, got=g, want=v, history=hist, **det)
                mon.event('carried')
            physical(mon, new, cm, 'selected', have if r.random() < .7 else keys, stiffness=c, history=hist, **det)
            if 'clustered_N1' in cv and 'clustered_N1' in new.__dict__:
                cluster(mon, new, nn, 'selected', history=hist, **det)
            # the container selected from is as it was
            same_state(mon, cur, np.asarray(cur.MTs, dtype=float), None, 'kept', **det)
            cur = new
        same_state(mon, d, m, p, 'untouched', **det)
        # parts of tensors are not tensors
        if r.random() < .3:
            arg = [0, slice(0, 3), (0, slice(None)), (slice(0, 3), 0), np.array([5, 4, 3, 2, 1, 0]), (slice(None, None, -1), slice(None))][r.integers(6)]
            try:
                part = d[arg]
            except Exception:
                mon.event('parts_refused')
            else:
                have = {tuple(q) for q in m.T}
                got = np.asarray(part.MTs, dtype=float)
                mon.check(got.shape[0] == 6 and all(tuple(q) in have for q in got.T), 'only_tensors_selected', arg=repr(arg), got=got, **det)


def assign(mon):
    """samples are replaced in a container without probabilities; its parameters follow"""
    from MTfit.plot.plot_classes import MTData
    r = mon.rng
    gc.collect()
    gc.freeze()
    for it in range(mon.n(400, 3000)):
        m = draw_mts(r, 12)
        n = m.shape[1]
        d = mon.call('container', MTData, m.copy())
        allk = [k for k in SCALAR+VECTOR if n < 8 or k not in ('phi1', 'phi2', 'explosion', 'area_displacement')]
        keys = [allk[i] for i in r.permutation(len(allk))[:r.integers(1, len(allk))]]
        mon.case([m, keys], sample=dict(n=n, keys=keys))
        for k in keys:
            value(mon, d, k, n, 'derived', mts=m)
        d.mean
        if r.random() < .3:
            d.clustered_N1
        cur = m.copy()
        for step in range(int(r.integers(1, 3))):
            s, kind = selection(r, n)
            if kind == 'take':
                s = np.unique(np.asarray(s) % n)
            idx = np.atleast_1d(np.arange(n)[s])
            new = np.array([T.unit6(r)[0] for _ in idx]).T
            v = new[:, 0] if kind == 'int' else new

            def setit():
                d[:, s] = v
            mon.call('assign', setit)
            cur[:, idx] = new
            mon.event('assign_'+kind)
            det = dict(mts=cur, before=m, selection=repr(s)[:80], keys=keys)
            same_state(mon, d, cur, None, 'assigned', **det)
            physical(mon, d, cur, 'assigned', keys, **det)
            if r.random() < .3:
                cluster(mon, d, n, 'assigned', **det)
            mean = np.asarray(d.mean, dtype=float).flatten()
            mon.close(mean, cur.mean(1), 'assigned_mean', rtol=1e-9, atol=1e-12*np.abs(cur).max(), **det)


def weighted(m, p):
    L = np.longdouble
    w = np.asarray(p, dtype=L)
    return (m.astype(L)*w).sum(1)/w.sum(), (np.abs(m).astype(L)*w).sum(1)/w.sum()


def statistics(mon):
    from MTfit.plot.plot_classes import MTData
    from MTfit.sampling import unique_columns
    r = mon.rng
    gc.collect()
    gc.freeze()
    for it in range(mon.n(1500, 12000)):
        big = r.random() < .03
        if big:
            n = int(r.integers(200, 4000))
            m = r.normal(size=(6, max(1, n//int(r.integers(1, 30)))))[:, r.integers(0, 10**6, n) % max(1, n//30)] if n >= 30 else r.normal(size=(6, n))
            m = np.ascontiguousarray(m)
            mon.event('long_chain')
        else:
            m = draw_mts(r)
        n = m.shape[1]
        if r.random() < .2 and n > 1:
            # tensors that differ in the last place are different ones
            i, j = r.integers(n, size=2)
            m[:, i] = m[:, j]
            k = r.integers(6)
            m[k, i] = np.nextafter(m[k, j], 10) if m[k, j] else 1e-300
            mon.event('last_place')
        p = draw_p(r, n)
        withp = r.random() < .7
        x, form = given(r, m)
        if form in ('list', 'rows') and big:
            x, form = m.copy(), 'array'
        d = mon.call('container', MTData, x, p if withp else [])
        det = dict(mts=m if n < 50 else n, p=(p if n < 50 else n) if withp else None, form=form)
        mon.case([m, p, withp])
        m = built(mon, d, m, form, 'built', **det)
        if m is None:
            continue
        cached = []
        if not big and r.random() < .5:
            cached = [k for k in ('gamma', 'T', 'strike', 'kappa', 'N1', 'u') if r.random() < .5]
            for k in cached:
                value(mon, d, k, n, 'derived', **det)
        # mean
        if not withp or p.sum() > 0:
            want, absw = weighted(m, p if withp else np.ones(n))
            for q in range(2):
                got = mon.call('mean', d.get_mean)[0] if q else mon.call('mean', getattr, d, 'mean')
                got = np.asarray(got, dtype=float)
                if mon.check(got.size == 6, 'mean_six_vector', shape=got.shape, **det):
                    err = np.abs(got.flatten()-want.astype(float))
                    mon.check((err <= 1e-11*absw.astype(float)+1e-290).all(), 'mean', got=got, want=want, **det)
            mon.event('mean_weighted' if withp else 'mean_plain')
        # maximum
        if withp:
            for single in (False, True):
                new = mon.call('maximum', d.get_max_probability, single=single)
                idx = np.nonzero(p == p.max())[0]
                if single:
                    idx = idx[:1]
                mon.event('maximum_ties' if len(idx) > 1 else 'maximum_one')
                if same_state(mon, new, m[:, idx], np.asarray(p)[idx], 'maximum', single=single, **det) and cached and r.random() < .4:
                    physical(mon, new, m[:, idx], 'maximum', cached, **det)
            new = mon.call('maximum', getattr, d, 'max_probability')
            same_state(mon, new, m[:, p == p.max()], np.asarray(p)[p == p.max()], 'maximum_attribute', **det)
        # unique samples
        new = mon.call('unique', d.get_unique_McMC)
        want = collections.Counter(tuple(q) for q in m.T.tolist())
        um = np.asarray(new.MTs, dtype=float)
        cnt = np.asarray(new.probability).flatten()
        got = collections.Counter(tuple(q) for q in um.T.tolist())
        mon.check(um.shape[0] == 6 and max(got.values()) == 1 and set(got) == set(want), 'unique_once', got=len(got), want=len(want), n=max(1, len(want)), **det)
        if mon.check(cnt.shape == (um.shape[1],), 'unique_counts_aligned', counts=cnt.shape, **det):
            mon.check(all(want.get(tuple(q), -1) == k for q, k in zip(um.T.tolist(), cnt)), 'unique_counts', n=max(1, len(want)), got=cnt, want=list(want.values()), **det)
            mon.check(cnt.sum() == n, 'unique_conserves', got=cnt.sum(), want=n, **det)
        mon.event('unique_repeats' if len(want) < n else 'unique_all')
        mon.event('unique_single' if len(want) == 1 else 'unique_many')
        if cached and um.shape[1] < 50:
            physical(mon, new, um, 'unique', cached, **det)
        same_state(mon, d, m, p if withp else None, 'untouched', **det)
        # the reduction itself
        y = m if r.random() < .6 else np.asmatrix(m)
        if r.random() < .3:
            y = y[:int(r.integers(1, 6))]
        ym = np.asarray(y)
        opts = [(True, True), (True, False), (False, True), (False, False)][r.integers(4)]
        out = mon.call('unique_columns', unique_columns, y, *opts)
        out = list(out) if isinstance(out, tuple) else [out]
        u = np.asarray(out[0], dtype=float)
        want = collections.Counter(tuple(q) for q in ym.T.tolist())
        mon.check(u.shape == (ym.shape[0], len(want)) and {tuple(q) for q in u.T.tolist()} == set(want), 'columns_once', shape=u.shape, want=len(want), **det)
        if opts[0]:
            cc = np.asarray(out[1]).flatten()
            mon.check(len(cc) == u.shape[1] and all(want[tuple(q)] == k for q, k in zip(u.T.tolist(), cc)), 'columns_counts', n=len(want), got=cc, **det)
        if opts[1]:
            ii = np.asarray(out[-1]).flatten()
            mon.check(len(ii) == u.shape[1] and same_bits(ym[:, ii], u), 'columns_index', n=len(want), got=ii, **det)


def outputs(mon):
    """containers of MTfit results, with the conversions in them"""
    from MTfit.plot.plot_classes import MTData
    import MTfit.convert as C
    r = mon.rng
    gc.collect()
    gc.freeze()
    name = {'g': 'gamma', 'd': 'delta', 'k': 'kappa', 'h': 'h', 's': 'sigma', 'u': 'u', 'v': 'v', 'S1': 'strike', 'D1': 'dip', 'R1': 'rake', 'S2': 'strike2', 'D2': 'dip2', 'R2': 'rake2'}
    for it in range(mon.n(300, 2500)):
        m = draw_mts(r, 60)
        n = m.shape[1]
        p = draw_p(r, n).astype(float)
        lp = np.log(np.where(p > 0, p, 1))+np.where(p > 0, 0, -np.inf)
        old = r.random() < .25
        out = {('MTSpace' if old else 'moment_tensor_space'): [m.copy(), np.asmatrix(m)][r.integers(2)], ('Probability' if old else 'probability'): [p, np.asmatrix(p), p.reshape(1, -1)][r.integers(3)],
               'ln_pdf': [lp, np.asmatrix(lp)][r.integers(2)], ('NSamples' if old else 'total_number_samples'): 10*n, 'dkl': 1.}
        conv = {}
        if r.random() < .7:
            conv = mon.call('conversion', C.output_convert, m.copy())
            conv = {k: np.asarray(v).flatten() for k, v in conv.items()}
            if r.random() < .3:
                conv = {k: conv[k] for k in r.permutation(list(conv))[:int(r.integers(1, 13))]}
            out.update({k: v.copy() for k, v in conv.items()})
        det = dict(mts=m if n < 30 else n, old=old, keys=list(conv))
        d = mon.call('container', MTData, out)
        mon.case([m, p, sorted(conv)], sample=dict(n=n, keys=list(conv), old=old))
        if not same_state(mon, d, m, p, 'result', **det):
            continue
        mon.event('results')
        g = np.asarray(mon.call('result_ln_pdf', getattr, d, 'ln_pdf'), dtype=float).flatten()
        mon.check(np.array_equal(g, lp), 'result_ln_pdf', got=g, want=lp, **det)
        for k, v in conv.items():
            w = value(mon, d, name[k], n, 'result', **det)
            if w is not None:
                mon.check(np.array_equal(w, v), 'result_parameter', n=n, key=k, got=w, want=v, **det)
                mon.event('given_parameters')
        s, kind = selection(r, n)
        idx = np.atleast_1d(np.arange(n)[s])
        new = mon.call('select', lambda: d[:, s])
        if same_state(mon, new, m[:, idx], p[idx], 'result_selected', selection=repr(s)[:80], **det):
            for k, v in conv.items():
                if name[k] in new.__dict__:
                    w = value(mon, new, name[k], len(idx), 'result', **det)
                    if w is not None:
                        mon.check(np.array_equal(w, v[idx]), 'result_parameter_selected', n=n, key=k, got=w, want=v[idx], **det)
        full = [k for k in SCALAR[:18]+VECTOR[:6] if r.random() < .5]
        if not conv:
            physical(mon, d, m, 'result', full, **det)
        else:
            # given values and calculated ones describe the same tensors
            physical(mon, new, m[:, idx], 'result_selected', ['T', 'gamma', 'delta', 'strike', 'kappa'] if len(conv) == 13 or not set(conv) & {'k', 'h', 's', 'S1', 'D1', 'R1', 'g', 'd'} else ['T'], **det)


def draw_vectors(r):
    n = int(r.integers(1, 60))
    v = r.normal(size=(3, n))
    k = r.random(n)
    # poles, equator and their surroundings, axes
    for i in range(n):
        if k[i] < .08:
            v[:, i] = [0, 0, r.choice([-1, 1])]
        elif k[i] < .16:
            a = r.choice([r.uniform(0, 2*np.pi), 0, np.pi/2])
            v[:, i] = [np.cos(a), np.sin(a), r.choice([0., -0.])]
        elif k[i] < .24:
            v[:, i] = np.eye(3)[r.integers(3)]*r.choice([-1, 1])
        elif k[i] < .34:
            a = r.uniform(0, 2*np.pi)
            e = 10.**r.uniform(-18, -1)
            v[:, i] = [e*np.cos(a), e*np.sin(a), r.choice([-1, 1])]
        elif k[i] < .44:
            a = r.uniform(0, 2*np.pi)
            v[:, i] = [np.cos(a), np.sin(a), r.choice([-1, 1])*10.**r.uniform(-18, -1)]
    return v/np.sqrt((v*v).sum(0))


def projections(mon):
    from MTfit.plot import spherical_projection as S
    r = mon.rng
    eps = 2.3e-16
    for it in range(mon.n(6000, 60000)):
        v = draw_vectors(r)
        n = v.shape[1]
        f = str(r.choice(['equal_area', 'equal_angle']))
        lower, full, back = bool(r.random() < .65), bool(r.random() < .3), bool(r.random() < .4)
        kw = dict(lower=lower, full_sphere=full, back_project=back)
        for k, dflt in (('lower', True), ('full_sphere', False), ('back_project', False)):
            if kw[k] == dflt and r.random() < .5:
                kw.pop(k)
        axis = None
        if r.random() < .3:
            axis = np.array([[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, -1, 0]][r.integers(4)]) if r.random() < .4 else r.normal(size=3)*10.**r.uniform(-3, 3)
            kw['projection_axis'] = [axis, list(axis), axis.reshape(3, 1)][r.integers(3)]
            mon.event('axis')
        form = int(r.integers(4))
        if form == 0:
            args = [v[i].copy() for i in range(3)]
        elif form == 1:
            args = [v[i].reshape(1, -1).copy() for i in range(3)]
        elif form == 2:
            args = [list(v[i]) for i in range(3)]
        else:
            args = [float(v[i, 0]) for i in range(3)]
            v = v[:, :1]
            n = 1
        det = dict(f=f, options={k: repr(q) for k, q in kw.items()})
        mon.case([v, f, sorted(det['options'].items())], sample=dict(v=v[:, 0], **det))
        for k, q in (('lower', lower), ('full', full), ('back', back)):
            mon.event('%s_%d' % (k, q))
        before = [np.array(a) for a in args]
        X, Y = mon.call('projects', getattr(S, f), *args, **kw)
        mon.check(all(np.array_equal(a, b) for a, b in zip(args, before)), 'arguments_kept', **det)
        X, Y = np.asarray(X, dtype=float).flatten(), np.asarray(Y, dtype=float).flatten()
        if not mon.check(X.shape == (n,) and Y.shape == (n,), 'one_point_per_vector', got=X.shape, want=n, **det):
            continue
        near = 1e-14
        w = v
        if axis is not None:
            # azimuths about another axis have no given origin
            a = axis/np.sqrt((axis.astype(float)**2).sum())
            z = a.dot(v)
            rho = np.sqrt(((v-np.outer(a, z))**2).sum(0))
            near = 1e-12
        else:
            z = v[2]
            rho = np.hypot(v[0], v[1])
        down = z if lower else -z
        t, ta = np.arctan2(rho, down), np.arctan2(rho, -down)
        with np.errstate(all='ignore'):
            law = (lambda q: 2*np.sin(q/2)) if f == 'equal_area' else (lambda q: np.tan(q/2))
            R = np.hypot(X, Y)
            shown = np.isfinite(X) & np.isfinite(Y)
            mon.check((np.isnan(X) == np.isnan(Y)).all(), 'both_or_neither', n=n, X=X, Y=Y, **det)
            # relative error of 1+z
            cond = (1e-14 if axis is None else 1e-12)+40*eps/np.maximum(1+down, eps)*(1 if axis is None else 40)
            own = shown & (np.abs(R-law(t)) <= cond*np.maximum(law(t), 1e-9 if axis is None else 1))
            condb = (1e-14 if axis is None else 1e-12)+40*eps/np.maximum(1-down, eps)*(1 if axis is None else 40)
            anti = shown & (np.abs(R-law(ta)) <= condb*np.maximum(law(ta), 1e-9 if axis is None else 1))
            # direction
            if axis is None:
                ux, uy = np.where(rho > 0, v[0]/rho, 0), np.where(rho > 0, v[1]/rho, 0)
                slack = 1e-12*R+1e-15
                own &= (np.abs(X-R*ux) <= slack) & (np.abs(Y-R*uy) <= slack)
                anti &= (np.abs(X+R*ux) <= slack) & (np.abs(Y+R*uy) <= slack)
        below = down > near
        on = np.abs(down) <= near
        above = down < -near
        exact = np.zeros(n, bool) if axis is not None else on & (z == 0)
        ok = np.ones(n, bool)
        ok[below | exact] = own[below | exact]
        if full:
            # everything has a place of its own but the antipode
            last = (1+down) < 1e-12
            q = above & ~last
            ok[q] = own[q]
            ok[last] = (~shown | own | anti)[last]
        elif back:
            ok[above] = anti[above]
        else:
            ok[above] = (~shown)[above]
        rest = on & ~exact
        ok[rest] = (own | anti | ~shown)[rest]
        mon.event('below', int(below.sum()))
        mon.event('above', int(above.sum()))
        mon.event('equator', int(exact.sum()))
        mon.event('poles', int((rho == 0).sum()))
        mon.event('antipodes', int((above & anti).sum()))
        i = int(np.argmin(ok))
        mon.check(ok.all(), 'projection', n=n, v=v[:, i], got=(X[i], Y[i]), angle=t[i], want=law(t[i]), want_antipode=law(ta[i]), **det)
        if axis is not None:
            # differences in azimuth about the axis are kept, with their sense
            e1 = np.cross(a, [1., 0, 0] if abs(a[0]) < .7 else [0, 1., 0])
            e1 /= np.sqrt((e1*e1).sum())
            e2 = np.cross(a, e1)
            az = np.arctan2(e2.dot(v), e1.dot(v))
            q = own & (below | full & above) & (R > 1e-3) & (rho > 1e-3)
            got = np.arctan2(Y, X)
            if q.sum() > 1 and not (back and full):
                dd = (got-az)[q]
                dd = np.angle(np.exp(1j*(dd-dd[0])))
                mon.check((np.abs(dd) < 1e-8).all(), 'azimuth_about_axis', n=int(q.sum()), got=dd, **det)


WORKLOADS = {
    'container': dict(fn=container, shards={'quick': 2, 'thorough': 4}, need={'select_int': 20, 'select_mask': 20, 'select_take': 20, 'select_step': 20, 'selected_one': 50, 'carried': 500, 'clustered': 30, 'form_tensors_6': 1, 'form_matrix': 20}, timeout={'quick': 400, 'thorough': 880}),
    'assign': dict(fn=assign, shards={'quick': 1, 'thorough': 2}, need={'assign_int': 20, 'assign_mask': 20}, timeout={'quick': 400, 'thorough': 880}),
    'statistics': dict(fn=statistics, shards={'quick': 1, 'thorough': 3}, need={'mean_weighted': 300, 'mean_plain': 100, 'maximum_ties': 100, 'maximum_one': 100, 'unique_repeats': 200, 'unique_single': 20, 'last_place': 30, 'long_chain': 5}, timeout={'quick': 400, 'thorough': 880}),
    'outputs': dict(fn=outputs, shards={'quick': 1, 'thorough': 2}, need={'results': 200, 'given_parameters': 500}, timeout={'quick': 400, 'thorough': 880}),
    'projections': dict(fn=projections, flavours=['py'], shards={'quick': 2, 'thorough': 4}, need={'poles': 1000, 'equator': 1000, 'antipodes': 1000, 'axis': 500, 'full_1': 500, 'lower_0': 500}, timeout={'quick': 300, 'thorough': 880}),
}

if __name__ == '__main__':
    harness.main('C19', __file__, WORKLOADS,
                 rule='one case = one container with its history of selections, or one set of unit vectors with its projection options',
                 assumptions=['a container with one probability for several samples has no probability per sample',
                              'the antipode of a full-sphere projection has no place of its own',
                              'azimuths about another projection axis are kept up to a constant',
                              'components of tensors are not selections of samples'])
