"""C12: Tape-parameter and six-vector descriptions of a source are mutually inverse."""
import numpy as np
from vpm import harness
from vpm import tensors as tt

PI = np.pi


def flat(x):
    return np.asarray(x, dtype=float).flatten()


def in_range(mon, p, via, **d):
    g, de, k, h, s = p
    ok = all(np.isfinite(x).all() for x in p)
    mon.check(ok, 'parameters_finite', n=len(g), via=via, parameters=p, **d)
    if not ok:
        return False
    t = 1e-9
    mon.check((np.abs(g) <= PI/6+t).all(), 'longitude_range', n=len(g), via=via, value=g, **d)
    mon.check((np.abs(de) <= PI/2+t).all(), 'latitude_range', n=len(g), via=via, value=de, **d)
    mon.check(((k >= 0) & (k <= 2*PI)).all(), 'strike_range', n=len(g), via=via, value=k, **d)
    mon.check(((h >= 0) & (h <= 1)).all(), 'dip_cosine_range', n=len(g), via=via, value=h, **d)
    mon.check((np.abs(s) <= PI/2+t).all(), 'slip_range', n=len(g), via=via, value=s, **d)
    return True


def tol(h):
    # cos(dip) cannot tell dips below ~1e-8 apart
    return np.where(h < .9999, 1e-10, 1e-7)


def w_tensor(mon):
    from MTfit import convert as C
    r = mon.rng
    for it in range(mon.n(400, 3500)):
        n = int(r.choice([1, 1, 2, 3, 5, 6, 12]))
        mk = [tt.unit6(r) for _ in range(n)]
        m = np.array([a for a, _ in mk]).T
        form = str(r.choice(['col', 'matrix', 'flat'])) if n == 1 else str(r.choice(['batch', 'fortran', 'matrix_batch']))
        inp = {'col': m.copy(), 'matrix': np.matrix(m), 'flat': m[:, 0].copy(), 'batch': m.copy(), 'fortran': np.asfortranarray(m), 'matrix_batch': np.matrix(m)}[form]
        keep = np.array(inp)
        p = [flat(x) for x in mon.call('tape_parameters_of_any_tensor', C.MT6_Tape, inp)]
        mon.check(np.array_equal(keep, np.array(inp)), 'input_left_alone', form=form)
        if not mon.check(all(len(x) == n for x in p), 'one_parameter_set_per_tensor', form=form, got=[len(x) for x in p], want=n):
            continue
        mon.cases(m)
        for _, k in mk:
            mon.event('kind_'+k)
        judge(mon, C, m, p, mk, 'MT6_Tape/'+form)
        # the batched conversion used for results
        o = mon.call('output_conversion_of_any_tensor', C.output_convert, m.copy() if it % 2 else np.asfortranarray(m))
        p = [flat(o[k]) for k in ('g', 'd', 'k', 'h', 's')]
        if mon.check(all(len(x) == n for x in p), 'one_parameter_set_per_tensor', form='output_convert', got=[len(x) for x in p], want=n):
            judge(mon, C, m, p, mk, 'output_convert')
        # 3x3 <-> six-vector
        a = m[:, :1]
        x = [a.copy(), np.matrix(a), a[:, 0].copy(), a.T.copy()][it % 4]
        M = mon.call('forms_accepted', C.MT6_MT33, x)
        if mon.check(np.asarray(M).shape == (3, 3), 'three_by_three', shape=np.asarray(M).shape):
            mon.close(M, tt.m33(a)[0], 'six_to_three_by_three', atol=1e-14, m=a)
            f = r.choice([1., 1., 10**r.uniform(-5, 5)])
            Q = np.asarray(M)*f
            b = mon.call('forms_accepted', C.MT33_MT6, Q if it % 2 else np.matrix(Q))
            if mon.check(np.asarray(b).shape == (6, 1), 'six_vector', shape=np.asarray(b).shape):
                mon.close(flat(b), a[:, 0], 'three_by_three_to_six', atol=1e-13, m=a, factor=f)


def judge(mon, C, m, p, mk, via):
    n = m.shape[1]
    if not in_range(mon, p, via, m=m):
        return
    back = tt.tape_tensor(*p)
    e = np.abs(back-m).max(0)
    t = tol(p[3])
    i = int((e-t).argmax())
    mon.check((e < t).all(), 'parameters_describe_the_tensor', n=n, via=via, m=m[:, i], params=[x[i] for x in p], error=e[i], kind=mk[i][1])
    own = np.asarray(mon.call('tensor_of_own_parameters', C.Tape_MT6, *p), dtype=float)
    if mon.check(own.shape == (6, n), 'tensor_shape', shape=own.shape):
        e = np.abs(own-m).max(0)
        i = int((e-t).argmax())
        mon.check((e < t).all(), 'tensor_round_trip', n=n, via=via, m=m[:, i], params=[x[i] for x in p], error=e[i], kind=mk[i][1])
    dc = np.array([k == 'dc' for _, k in mk])
    if dc.any():
        mon.check((np.abs(p[0][dc]) < 1e-9).all() and (np.abs(p[1][dc]) < 1e-9).all(), 'double_couple_at_zero', n=int(dc.sum()), g=p[0][dc], d=p[1][dc], via=via)


def params(r, n):
    g = r.uniform(-PI/6, PI/6, n)
    d = np.arcsin(r.uniform(-1, 1, n))
    k = r.uniform(0, 2*PI, n)
    h = r.uniform(0, 1, n)
    s = r.uniform(-PI/2, PI/2, n)
    for x, special in ((g, [-PI/6, PI/6, 0, 1e-10, -1e-5]), (d, [-PI/2, PI/2, 0, 1e-10, 1.5]), (k, [0, PI/2, PI, 1.5*PI, PI/4, 2*PI-1e-12, 1e-13, 1., 6.2]),
                       (h, [0, 1, 1-1e-12, 1-1e-6, 1e-12, 1e-5, np.sqrt(.5)]), (s, [-PI/2, PI/2, 0, 1e-12, -1e-6, PI/4])):
        u = r.random(n) < .25
        x[u] = r.choice(special, int(u.sum()))
    return g, d, k, h, s


def w_params(mon):
    from MTfit import convert as C
    r = mon.rng
    for it in range(mon.n(500, 4000)):
        n = int(r.choice([1, 1, 2, 3, 7]))
        p = params(r, n)
        mon.cases(np.array(p))
        want = tt.tape_tensor(*p)
        scalar = n == 1 and it % 2
        a = [float(x[0]) for x in p] if scalar else [x.copy() for x in p]
        if not scalar and it % 3 == 0:     # strided views
            a = [np.repeat(x, 2)[::2] for x in a]
        m = np.asarray(mon.call('tensor_of_any_parameters', C.Tape_MT6, *a), dtype=float)
        if not mon.check(m.shape == (6, n), 'tensor_shape', shape=m.shape, n=n):
            continue
        mon.check((np.abs(np.sqrt((m*m).sum(0))-1) < 1e-12).all(), 'unit_norm', n=n, m=m, params=p)
        mon.close(m, want, 'tensor_of_parameters', atol=1e-9, params=p)
        if n == 1:
            M = mon.call('tensor_of_any_parameters', C.Tape_MT33, *[float(x[0]) for x in p])
            mon.close(tt.M6_33(M), want[:, 0], 'tensor33_of_parameters', atol=1e-9, params=p)
        T, N, P, E = [np.asarray(x, dtype=float) for x in mon.call('tensor_of_any_parameters', C.Tape_TNPE, *a)]
        R = np.einsum('an,ain,ajn->nij', E.reshape(3, n), np.array([T, N, P]), np.array([T, N, P]))
        mon.close(tt.M6_33(R), want, 'axes_of_parameters', atol=1e-9, params=p)
        b = [flat(x) for x in mon.call('tape_parameters_of_any_tensor', C.MT6_Tape, m)]
        if not mon.check(all(len(x) == n for x in b), 'one_parameter_set_per_tensor') or not in_range(mon, b, 'round_trip', params=p):
            continue
        g, d, k, h, s = p
        cd, lam = np.cos(d), np.sort(tt.lune_E(g, d), 0)[::-1]
        gap = np.minimum(lam[0]-lam[1], lam[1]-lam[2])
        # source type: conditioned by the distance to the pole
        mon.check((np.abs(b[1]-d) < 1e-7).all(), 'latitude_round_trip', n=n, params=p, measured=b[1])
        ok = cd > 1e-4
        mon.check((np.abs(b[0]-g)[ok] < 1e-8/cd[ok]).all(), 'longitude_round_trip', n=int(ok.sum()), params=p, measured=b[0])
        # orientation, where the tensor determines it
        for i in range(n):
            if gap[i] < 1e-6:
                mon.event('orientation_undetermined')
                continue
            n1, u1 = tt.sdr_vectors(k[i], np.arccos(h[i]), s[i])
            n2, u2 = tt.sdr_vectors(b[2][i], np.arccos(b[3][i]), b[4][i])
            e = min(np.abs(np.array([n2-n1, u2-u1])).max(), np.abs(np.array([n2+n1, u2+u1])).max(),
                    np.abs(np.array([n2-u1, u2-n1])).max(), np.abs(np.array([n2+u1, u2+n1])).max())
            te = 1e-7+1e-13/gap[i]
            mon.check(e < te, 'orientation_round_trip', params=[x[i] for x in p], measured=[x[i] for x in b], error=e)
            if 1e-3 < h[i] < 1-1e-3 and abs(s[i]) < PI/2-1e-3 and gap[i] > 1e-3:
                dk = abs((b[2][i]-k[i]+PI) % (2*PI)-PI)
                mon.check(dk < 1e-6 and abs(b[3][i]-h[i]) < 1e-6 and abs(b[4][i]-s[i]) < 1e-6, 'parameters_round_trip', params=[x[i] for x in p], measured=[x[i] for x in b])


W = {
    'tensor': dict(fn=w_tensor, flavours=['py', 'c', 'san'], shards={'thorough': 4}, need={'tensor_round_trip': 500, 'double_couple_at_zero': 20}),
    'params': dict(fn=w_params, flavours=['py', 'c', 'san'], shards={'thorough': 4}, need={'parameters_round_trip': 150, 'unit_norm': 500}),
}
if __name__ == '__main__':
    harness.main('C12', __file__, W, rule='an observation is one unit tensor or one Tape parameter set converted there and back; distinct by content',
                 assumptions=['a tensor whose dip is below ~1e-8 cannot be told from a horizontal one by cos(dip): 1e-7 there, 1e-10 elsewhere'])
