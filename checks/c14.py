"""C14: eigen-decomposition and source-type coordinates are faithful and scale-free."""
import numpy as np
from vpm import harness
from vpm import tensors as tt

L = np.longdouble
FORMS6 = ('col', 'matrix', 'flat', 'batch', 'fortran', 'matrix_batch')


def w_eigen(mon):
    from MTfit import convert as C
    r = mon.rng
    for it in range(mon.n(500, 4000)):
        n = int(r.choice([1, 2, 3, 5, 6, 17]))
        m = np.array([tt.hostile6(r) for _ in range(n)]).T
        form = str(r.choice(FORMS6))
        if form in ('col', 'matrix', 'flat'):
            m = m[:, :1]
        inp = {'col': m.copy(), 'matrix': np.matrix(m), 'flat': m[:, 0].copy(), 'batch': m.copy(), 'fortran': np.asfortranarray(m.copy()), 'matrix_batch': np.matrix(m)}[form]
        keep = np.array(inp)
        T, N, P, E = mon.call('eigen_accepts_any_tensor', C.MT6_TNPE, inp)
        mon.check(np.array_equal(keep, np.array(inp)), 'input_left_alone', form=form)
        verdict(mon, m, T, N, P, E, 'MT6_TNPE/'+form)
        mon.cases(m)
        # 3x3 form
        M = tt.m33(m)[0]
        a = np.matrix(M) if it % 2 else M.copy()
        T, N, P, E = mon.call('eigen_accepts_any_tensor', C.MT33_TNPE, a)
        mon.check(np.array_equal(np.array(a), M), 'input_left_alone', form='33')
        verdict(mon, m[:, :1], T, N, P, E, 'MT33_TNPE')
        x = tt.M6_33(mon.call('forms_accepted', C.MT6_MT33, m[:, :1]))
        mon.close(x, m[:, 0], 'three_by_three_form', rtol=1e-13, atol=1e-14*np.abs(m[:, 0]).max())


def verdict(mon, m, T, N, P, E, via):
    k = m.shape[1]
    sh = [np.asarray(x) for x in (T, N, P, E)]
    if not all(mon.check(x.size == 3*k and np.isrealobj(x), 'axes_are_real_3xn', via=via, dtype=str(x.dtype), shape=x.shape) for x in sh):
        return
    T, N, P, E = [x.astype(float).reshape(3, k) for x in sh]
    if not mon.check(all(np.isfinite(x).all() for x in (T, N, P, E)), 'finite', n=k, via=via, m=m):
        return
    mon.check(((E[0] >= E[1]) & (E[1] >= E[2])).all(), 'descending_eigenvalues', n=k, via=via, E=E, m=m)
    V = np.stack([T, N, P], 2).transpose(1, 0, 2)   # k,3(component),3(axis)
    G = np.einsum('kia,kib->kab', V, V)
    mon.check(np.abs(G-np.eye(3)).max() < 1e-10, 'orthonormal', n=k, via=via, gram=G, m=m)
    M = tt.m33(m)
    s = np.abs(M).max((1, 2))
    s[s == 0] = 1
    R = np.einsum('kia,ak,kja->kij', V, E/s, V)
    e = np.abs(R-M/s[:, None, None]).max((1, 2))
    mon.check((e < 1e-11).all(), 'rebuilds_tensor', n=k, via=via, worst=e.max(), m=m[:, int(e.argmax())])
    w = np.sort(np.linalg.eigvalsh(M/s[:, None, None]), 1)[:, ::-1].T
    mon.check(np.abs(E/s-w).max() < 1e-11, 'eigenvalues', n=k, via=via, got=E/s, want=w)


def scalar(x):
    return np.asarray(x, dtype=float).flatten()


def w_source(mon):
    from MTfit import convert as C
    r = mon.rng
    for it in range(mon.n(1500, 10000)):
        E0, tag = tt.hostileE(r)
        mon.case((E0,), sample=dict(E=E0, kind=tag))
        mon.event('kind_'+tag)
        E = E0[r.permutation(3)]*10**r.choice([0., 0, 1, -3, r.uniform(-30, 30)])
        want = tt.source_type(E)
        form = str(r.choice(['flat', 'col', 'matrix', 'row']))
        a = {'flat': E, 'col': E[:, None], 'matrix': np.matrix(E).T, 'row': E[None, :]}[form].copy()
        tol = 1e-7 if tag in ('near_iso', 'near_dc') else 1e-9
        keep = a.copy()
        g, d = [scalar(x) for x in mon.call('lune_accepts', C.E_GD, a)]
        if not mon.check(g.size == 1 and d.size == 1, 'one_coordinate_per_source', form=form, got=(g, d)):
            continue
        judge_gd(mon, g[0], d[0], want, tol, E, 'E_GD/'+form)
        mon.check(np.array_equal(keep, a), 'input_left_alone', form=form)
        if form != 'row':
            t, k = [scalar(x) for x in mon.call('hudson_accepts', C.E_tk, a)]
            mon.close(t, [want['tau']], 'hudson_tau', atol=tol, E=E)
            mon.close(k, [want['k']], 'hudson_k', atol=tol, E=E)
            u, v = [scalar(x) for x in mon.call('hudson_accepts', C.E_uv, a)]
            judge_uv(mon, u, v, want, tol, E, 'E_uv/'+form)
        u, v = mon.call('hudson_accepts', C.tk_uv, float(want['tau']), float(want['k']))
        judge_uv(mon, u, v, want, 1e-9, E, 'tk_uv')
        # through the tensor
        q = tt.rotation(r, special=r.random() < .3)
        M = q.dot(np.diag(E0)).dot(q.T)
        M = (M+M.T)/2
        dev = max(abs(E0-E0.mean()))/max(abs(E0))
        loose = 1e-9+1e-14/max(dev, 1e-300)
        want = tt.source_type(E0)
        g, d = [scalar(x) for x in mon.call('lune_accepts', C.MT33_GD, np.matrix(M))]
        judge_gd(mon, g[0], d[0], want, loose, E0, 'MT33_GD', gtol=loose)
        o = mon.call('output_accepts', C.output_convert, tt.M6_33(M)[:, None])
        if want['dc']:
            mon.check(abs(float(o['u'][0])) < 1e-9 and abs(float(o['v'][0])) < 1e-9 and abs(float(o['g'][0])) < 1e-9 and abs(float(o['d'][0])) < 1e-9, 'double_couple_at_origin', got={i: o[i] for i in 'uvgd'})
        judge_gd(mon, float(o['g'][0]), float(o['d'][0]), want, loose, E0, 'output_convert', gtol=loose)
        judge_uv(mon, o['u'], o['v'], want, min(loose, 1.), E0, 'output_convert')
    # batches keep the columns apart
    for it in range(mon.n(120, 1000)):
        n = int(r.choice([2, 3, 4, 9]))
        Es = np.array([tt.hostileE(r, generic=True)[0][r.permutation(3)] for _ in range(n)]).T
        ws = [tt.source_type(e) for e in Es.T]
        forms = ['cols', 'fortran'] + (['rows'] if n != 3 else [])
        for form in forms:
            a = {'cols': Es.copy(), 'fortran': np.asfortranarray(Es), 'rows': Es.T.copy()}[form]
            g, d = [scalar(x) for x in mon.call('lune_accepts', C.E_GD, a)]
            mon.close(g, [w['gamma'] for w in ws], 'batched_lune', atol=1e-9, form=form)
            mon.close(d, [w['delta'] for w in ws], 'batched_lune', atol=1e-9, form=form)
        u, v = mon.call('hudson_accepts', C.E_uv, Es)
        mon.close(u, [w['u'] for w in ws], 'batched_hudson', atol=1e-9)
        mon.close(v, [w['v'] for w in ws], 'batched_hudson', atol=1e-9)
        u, v = mon.call('hudson_accepts', C.tk_uv, np.array([w['tau'] for w in ws], dtype=float), np.array([w['k'] for w in ws], dtype=float))
        mon.close(u, [w['u'] for w in ws], 'batched_hudson', atol=1e-9)
        mon.close(v, [w['v'] for w in ws], 'batched_hudson', atol=1e-9)
        mon.cases(Es)
    # lune -> eigenvalues -> lune
    for it in range(mon.n(300, 3000)):
        n = int(r.choice([1, 1, 2, 3, 8]))
        g = r.uniform(-np.pi/6, np.pi/6, n)
        d = r.uniform(-np.pi/2, np.pi/2, n)
        if it % 3 == 0:
            g = r.choice([-np.pi/6, 0, np.pi/6, 1e-9, g[0]], n)
            d = r.choice([-np.pi/2, 0, np.pi/2, 1e-9, -1e-5, d[0]], n)
        E = np.asarray(mon.call('lune_inverse_accepts', C.GD_E, g if n > 1 or it % 2 else float(g[0]), d if n > 1 or it % 2 else float(d[0])), dtype=float).reshape(3, n)
        mon.close(np.sqrt((E*E).sum(0)), np.ones(n), 'eigenvalues_of_lune_point_have_unit_norm', atol=1e-12)
        mon.check((E[0] >= E[1]-1e-14).all() and (E[1] >= E[2]-1e-14).all(), 'lune_eigenvalues_descend', n=n, E=E)
        w = tt.lune_E(g, d)
        mon.close(E, w, 'lune_to_eigenvalues', atol=1e-12, g=g, d=d)
        if n != 3:
            gb, db = [scalar(x) for x in mon.call('lune_accepts', C.E_GD, E)]
            cd = np.cos(d)
            mon.check((np.abs(db-d) < 1e-7).all(), 'lune_round_trip', n=n, d=d, got=db)
            ok = cd > 1e-6
            mon.check((np.abs(gb-g)[ok] < 1e-9/cd[ok]).all(), 'lune_round_trip', n=n, g=g, got=gb, d=d)
        mon.cases(np.array([g, d]))


def judge_gd(mon, g, d, w, tol, E, via, gtol=None):
    mon.check(np.isfinite(g) and np.isfinite(d) and abs(g) <= np.pi/6+1e-9 and abs(d) <= np.pi/2+1e-9, 'lune_range', g=g, d=d, E=E, via=via)
    if w['iso']:
        mon.check(abs(d-w['delta']) < 1e-7+tol, 'isotropic_at_the_pole', E=E, d=d, via=via)
        return
    mon.check(abs(d-w['delta']) < tol+(1e-7 if abs(w['delta']) > 1.5 else 0), 'lune_latitude', E=E, measured=d, expected=float(w['delta']), via=via)
    mon.check(abs(g-w['gamma']) < max(tol, gtol or 0), 'lune_longitude', E=E, measured=g, expected=float(w['gamma']), via=via)


def judge_uv(mon, u, v, w, tol, E, via):
    u, v = scalar(u), scalar(v)
    if not mon.check(u.size == 1 and v.size == 1, 'one_coordinate_per_source', via=via):
        return
    u, v = u[0], v[0]
    mon.check(np.isfinite(u) and np.isfinite(v) and abs(u) <= 4./3+1e-9 and abs(v) <= 1+1e-9, 'hudson_range', u=u, v=v, E=E, via=via)
    mon.check(abs(u-w['u']) < tol and abs(v-w['v']) < tol, 'hudson_coordinates', u=u, v=v, expected=(float(w['u']), float(w['v'])), E=E, via=via)


def w_stiff(mon):
    from MTfit import convert as C
    r = mon.rng
    for it in range(mon.n(500, 4000)):
        iso = it % 3 == 0
        if iso:
            mu = 10**r.uniform(-2, 2)
            lam = mu*r.choice([1., 0., r.uniform(-.6, 5), r.uniform(0, 50)])
            c = list(map(float, mon.call('stiffness_accepts', C.isotropic_c, lam, mu)))
            mon.close(tt.c_tensor(c), tt.iso_tensor(lam, mu), 'isotropic_stiffness', rtol=1e-12, atol=1e-12*(mu+abs(lam)))
            back = mon.call('stiffness_accepts', C.isotropic_c, c=list(c))
            mon.close(back, c, 'isotropic_average_of_isotropic', rtol=1e-10, atol=1e-10*max(map(abs, c)))
        else:
            A = r.normal(size=(6, 6))
            V = A.dot(A.T)+r.choice([.05, .5, 5.])*np.eye(6)
            V *= 10**r.choice([0., r.uniform(-6, 10)])
            c = [float(V[i, j]) for i in range(6) for j in range(i, 6)]
            if it % 7 == 1:    # transversely isotropic / cubic
                c = cubic(r)
            elif it % 7 in (2, 4):
                # an isotropic medium with a single stiffness element changed
                mu = 10**r.uniform(-2, 2)
                c = list(map(float, tt.iso21(mu*r.uniform(0, 5), mu)))
                k = int(r.integers(21))
                c[k] += float(mu*r.choice([-.4, -1e-2, 1e-2, .3, .8 if k in (0, 6, 11, 15, 18, 20) else .4]))
                mon.event('one_element_from_isotropic')
            b = list(map(float, mon.call('stiffness_accepts', C.isotropic_c, c=list(c))))
            T, B = tt.c_tensor(c), tt.c_tensor(b)
            s = np.abs(T).max()
            mon.close([np.einsum('iijj', B)/s, np.einsum('ijij', B)/s], [np.einsum('iijj', T)/s, np.einsum('ijij', T)/s], 'isotropic_average_keeps_invariants', atol=1e-10)
        T = tt.c_tensor(c)
        mon.check(bool(mon.call('stiffness_accepts', C.is_isotropic_c, list(c))) == iso, 'isotropy_test', iso=iso, c=c)
        s = np.abs(T).max()
        mon.close(mon.call('stiffness_accepts', C.c_norm, list(c))/s, np.sqrt((T*T).sum())/s, 'stiffness_norm', rtol=1e-10)
        mon.close(np.asarray(mon.call('stiffness_accepts', C.c21_cvoigt, list(c)))/s, tt.mandel(T)/s, 'stiffness_matrix', rtol=1e-12, atol=1e-13)
        cond = np.linalg.cond(tt.mandel(T))
        n = int(r.choice([1, 2, 5, 6, 7]))
        D = np.array([tt.hostile6(r, moderate=True) for _ in range(n)]).T
        form = str(r.choice(['col', 'flat', 'matrix', 'batch', 'matrix_batch']))
        if form in ('col', 'flat', 'matrix'):
            D = D[:, :1]
        M = tt.M6_33(np.einsum('ijkl,nkl->nij', T, tt.m33(D)))
        inp = {'col': M, 'flat': M[:, 0], 'matrix': np.matrix(M), 'batch': M, 'matrix_batch': np.matrix(M)}[form].copy()
        cc = np.array(c) if it % 5 == 0 else list(c)
        got = np.asarray(mon.call('potency_accepts', C.MT6c_D6, inp, cc), dtype=float)
        if mon.check(got.size == D.size, 'potency_shape', form=form, got=got.shape, want=D.shape):
            e = np.abs(got.reshape(D.shape)-D).max()/max(np.abs(D).max(), 1e-300)
            mon.check(e < 1e-13*cond+1e-12, 'potency_inverts_stiffness', error=e, cond=cond, form=form, c=c, D=D)
        mon.cases(np.concatenate([M[:, 0], c]))


def cubic(r):
    c44 = r.uniform(.5, 3)
    c12 = r.uniform(.1, 2)
    c11 = c12+2*c44*r.choice([.3, 3.])
    return [c11, c12, c12, 0., 0., 0., c11, c12, 0., 0., 0., c11, 0., 0., 0., c44, 0., 0., c44, 0., c44]


def w_cdc(mon):
    from MTfit import convert as C
    r = mon.rng
    for it in range(mon.n(1500, 12000)):
        a = r.uniform(0, np.pi/2)
        nu = r.uniform(-1, .5)
        k = it % 10
        if k == 0:
            a = r.choice([0., 1e-9, 1e-4, np.pi/2-1e-6, np.pi/2-1e-3, np.pi/4, np.pi/2])
        elif k == 1:
            nu = r.choice([-1+1e-9, -1+1e-4, .5-1e-9, .5-1e-4, 0., .25, -.5])
        arr = it % 2
        A, V = (np.array([a, a/2, .3]), np.array([nu, nu, .2])) if arr else (float(a), float(nu))
        g, d = [scalar(x) for x in mon.call('cdc_accepts', C.basic_cdc_GD, A, V)]
        for j, (aa, vv) in enumerate(zip(scalar(A), scalar(V))):
            w = tt.cdc_source(aa, vv)
            mon.check(np.isfinite(g[j]) and np.isfinite(d[j]) and -np.pi/6-1e-12 <= g[j] <= 1e-12 and -np.pi/2 <= d[j] <= np.pi/2, 'cdc_lune_range', alpha=aa, poisson=vv, g=g[j], d=d[j])
            mon.check(abs(g[j]-w['gamma']) < 1e-10 and abs(d[j]-w['delta']) < 1e-7, 'cdc_to_lune', alpha=aa, poisson=vv, measured=(g[j], d[j]), expected=(float(w['gamma']), float(w['delta'])))
        ga, da = (g, d) if arr else (float(g[0]), float(d[0]))
        ab, nb = [scalar(x) for x in mon.call('cdc_accepts', C.GD_basic_cdc, ga, da)]
        for j, (aa, vv) in enumerate(zip(scalar(A), scalar(V))):
            mon.check(abs(ab[j]-aa) < 1e-7, 'opening_angle_round_trip', alpha=aa, poisson=vv, measured=ab[j])
            ca = np.cos(aa)
            if ca > 1e-4:
                mon.check(abs(nb[j]-vv) < 1e-7+1e-12/ca**2, 'poisson_round_trip', alpha=aa, poisson=vv, measured=nb[j])
            mon.case((aa, vv))
    g, d = C.basic_cdc_GD(np.array([.5]))
    w = tt.cdc_source(.5, .25)
    mon.close([g[0], d[0]], [w['gamma'], w['delta']], 'default_poisson_ratio', atol=1e-10)


W = {
    'eigen': dict(fn=w_eigen, flavours=['py', 'c', 'san'], shards={'thorough': 3}, need={'rebuilds_tensor': 500}),
    'source': dict(fn=w_source, flavours=['py', 'c', 'san'], shards={'thorough': 3}, need={'hudson_coordinates': 1000, 'lune_longitude': 1000}),
    'stiffness': dict(fn=w_stiff, shards={'thorough': 2}, need={'potency_inverts_stiffness': 200}),
    'crack_dc': dict(fn=w_cdc, shards={'thorough': 2}, need={'poisson_round_trip': 500}),
}
if __name__ == '__main__':
    harness.main('C14', __file__, W, rule='an observation is one tensor, eigenvalue triple, stiffness or (opening angle, Poisson ratio) pair put through the public conversions; distinct by content',
                 assumptions=['the zero tensor has no source type and is only put through the eigen-decomposition', 'at zero opening (alpha=pi/2) the Poisson ratio is undefined and not compared'])
