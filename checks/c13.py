"""C13: strike/dip/rake, principal axes and normal/slip describe one and the same source."""
import numpy as np
from vpm import harness
from vpm import tensors as tt

PI = np.pi
TOL = 1e-7


def flat(x):
    return np.asarray(x, dtype=float).flatten()


def angles(r, n):
    s, d, k = r.uniform(0, 2*PI, n), r.uniform(0, PI/2, n), r.uniform(-PI, PI, n)
    if r.random() < .3:
        d = np.arccos(r.uniform(0, 1, n))
    for x, special in ((s, [0, PI/2, PI, 1.5*PI, 1e-12, 2*PI-1e-12, 1e-3, 2*PI-1e-3, .5, PI/4]), (d, [0, PI/2, PI/4, 1e-9, 1e-12, 1e-7, 1e-5, PI/2-1e-12, PI/2-1e-5, .01]),
                       (k, [-PI, PI, 0, PI/2, -PI/2, 1e-12, PI-1e-12, -PI+1e-9, PI/2+1e-9, .1, -.1, 3.])):
        u = r.random(n) < .25
        x[u] = r.choice(special, int(u.sum()))
    return s, d, k


def ranges(mon, t, via, **k):
    s, d, r = t
    ok = mon.check(np.isfinite(np.concatenate(t)).all(), 'angles_finite', n=len(s), via=via, angles=t, **k)
    mon.check(((s >= 0) & (s <= 2*PI)).all(), 'strike_range', n=len(s), via=via, value=s, **k)
    mon.check(((d >= 0) & (d <= PI/2+1e-12)).all(), 'dip_range', n=len(s), via=via, value=d, **k)
    mon.check((np.abs(r) <= PI+1e-12).all(), 'rake_range', n=len(s), via=via, value=r, **k)
    return ok


def plane_err(a, b):
    """distance between two (normal, slip) pairs, either joint sign (the two descriptions of a vertical plane)"""
    (n1, u1), (n2, u2) = a, b
    x = np.maximum(np.abs(n1-n2).max(0), np.abs(u1-u2).max(0))
    y = np.maximum(np.abs(n1+n2).max(0), np.abs(u1+u2).max(0))
    return np.minimum(x, y)


def angle_err(a, b):
    ds = np.abs((a[0]-b[0]+PI) % (2*PI)-PI)
    dr = np.abs((a[2]-b[2]+PI) % (2*PI)-PI)
    return np.maximum(np.maximum(ds, np.abs(a[1]-b[1])), dr)


def aux_true(s, d, r):
    """auxiliary plane by vectors: its normal is the slip vector, made to point up"""
    n, u = tt.sdr_vectors(s, d, r)
    f = np.where(u[2] > 0, -1., 1.)
    return u*f, n*f


def sym(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    M = np.einsum('in,jn->nij', a, b)
    return tt.M6_33((M+M.transpose(0, 2, 1))/np.sqrt(2))


def tp(T, P):
    T, P = np.asarray(T, dtype=float), np.asarray(P, dtype=float)
    return tt.M6_33((np.einsum('in,jn->nij', T, T)-np.einsum('in,jn->nij', P, P))/np.sqrt(2))


def same(mon, got, want, rule, **k):
    e = np.abs(got-want).max(0)
    i = int(e.argmax())
    return mon.check((e < TOL).all(), rule, n=len(e), error=e[i], first=i, **k)


def w_angles(mon):
    from MTfit import convert as C
    r = mon.rng
    for it in range(mon.n(600, 5000)):
        n = int(r.choice([1, 1, 2, 3, 4, 9]))
        s, d, k = angles(r, n)
        mon.cases(np.array([s, d, k]))
        A = dict(strike=s, dip=d, rake=k)
        scalar = n == 1 and it % 2
        mon.event('scalar_inputs' if scalar else 'array_inputs')
        a = [float(x[0]) for x in (s, d, k)] if scalar else [s.copy(), d.copy(), k.copy()]
        want = tt.sdr_tensor(s, d, k)
        nu = tt.sdr_vectors(s, d, k)
        au = aux_true(s, d, k)
        # axes
        T, N, P = mon.call('axes_of_any_angles', C.SDR_TNP, *a)
        V = np.array([np.asarray(x, dtype=float) for x in (T, N, P)])
        if not mon.check(V.shape == (3, 3, n), 'axes_shape', shape=V.shape):
            continue
        G = np.einsum('ain,bin->nab', V, V)
        mon.check(np.abs(G-np.eye(3)).max() < 1e-10, 'axes_orthonormal', n=n, gram=G, **A)
        same(mon, tp(T, P), want, 'axes_tensor', **A)
        # normal and slip
        N1, N2 = mon.call('normals_of_any_angles', C.SDR_FP, *a)
        v1, v2 = np.asarray(N1, dtype=float), np.asarray(N2, dtype=float)
        mon.check(np.abs((v1*v1).sum(0)-1).max() < 1e-10 and np.abs((v2*v2).sum(0)-1).max() < 1e-10, 'normals_unit', n=n, **A)
        mon.check(np.abs((v1*v2).sum(0)).max() < 1e-10, 'normals_perpendicular', n=n, **A)
        same(mon, sym(v1, v2), want, 'normal_slip_tensor', **A)
        for x, y in ((N1, N2), (N2, N1)):
            t, b, p = mon.call('axes_of_normals', C.FP_TNP, np.matrix(x), np.matrix(y))
            same(mon, tp(t, p), want, 'axes_tensor_either_ordering', **A)
            B = np.array([np.asarray(z, dtype=float) for z in (t, b, p)])
            mon.check(np.abs(np.einsum('ain,bin->nab', B, B)-np.eye(3)).max() < 1e-10, 'axes_orthonormal', n=n, **A)
        for sg in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            x, y = mon.call('normals_of_axes', C.TP_FP, np.matrix(T)*sg[0], np.matrix(P)*sg[1])
            same(mon, sym(x, y)*1., want, 'normal_slip_tensor_axis_signs', signs=sg, **A)
        # back to angles: one ordering gives each plane
        got = []
        for x, y in ((N1, N2), (N2, N1)):
            keep = np.array(x), np.array(y)
            form = it % 3
            if form == 0:
                x, y = np.asarray(x), np.asarray(y)
            t = [flat(z) for z in mon.call('angles_of_normals', C.FP_SDR, x, y)]
            mon.check(np.array_equal(np.array(x), keep[0]) and np.array_equal(np.array(y), keep[1]), 'input_left_alone')
            if not mon.check(all(len(z) == n for z in t), 'one_plane_per_source'):
                return
            ranges(mon, t, 'FP_SDR', **A)
            same(mon, tt.sdr_tensor(*t), want, 'angles_of_normals_tensor', measured=t, **A)
            got.append(t)
        e0 = np.minimum(np.maximum(plane_err(tt.sdr_vectors(*got[0]), nu), plane_err(tt.sdr_vectors(*got[1]), au)),
                        np.maximum(plane_err(tt.sdr_vectors(*got[1]), nu), plane_err(tt.sdr_vectors(*got[0]), au)))
        mon.check((e0 < TOL).all(), 'normal_slip_round_trip', n=n, error=e0, got=got, **A)
        # axes back to angles
        for sg in ((1, 1), (-1, 1)):
            t = [flat(z) for z in mon.call('angles_of_axes', C.TNP_SDR, T*sg[0], N, P*sg[1])]
            ranges(mon, t, 'TNP_SDR', **A)
            same(mon, tt.sdr_tensor(*t), want, 'angles_of_axes_tensor', measured=t, **A)
            one_of(mon, t, s, d, k, nu, au, 'axes_round_trip', A)
        # the tensor's own angles
        for i in range(min(n, 2)):
            M = tt.m33(want[:, i])[0]
            t = [flat(z) for z in mon.call('angles_of_tensor', C.MT33_SDR, M if it % 2 else np.matrix(M))]
            ranges(mon, t, 'MT33_SDR', **A)
            same(mon, tt.sdr_tensor(*t), want[:, i:i+1], 'angles_of_tensor_tensor', measured=t, **A)
            one_of(mon, t, s[i:i+1], d[i:i+1], k[i:i+1], [x[:, i:i+1] for x in nu], [x[:, i:i+1] for x in au], 'tensor_round_trip', A)
        # auxiliary plane
        x = [flat(z) for z in mon.call('auxiliary_of_any_plane', C.SDR_SDR, *a)]
        if mon.check(all(len(z) == n for z in x), 'one_plane_per_source'):
            ranges(mon, x, 'SDR_SDR', **A)
            same(mon, tt.sdr_tensor(*x), want, 'auxiliary_tensor', measured=x, **A)
            e = plane_err(tt.sdr_vectors(*x), au)
            mon.check((e < TOL).all(), 'auxiliary_plane', n=n, error=e, measured=x, **A)
            y = [flat(z) for z in mon.call('auxiliary_of_any_plane', C.SDR_SDR, *([float(z[0]) for z in x] if scalar else x))]
            e = plane_err(tt.sdr_vectors(*y), nu)
            mon.check((e < TOL).all(), 'auxiliary_is_involution', n=n, error=e, once=x, twice=y, **A)
            ok = generic(s, d, k) & (np.abs(tt.sdr_vectors(s, d, k)[1][2]) > 1e-3)
            if ok.any():
                e = angle_err(y, (s, d, k))[ok]
                mon.check((e < 1e-6).all(), 'auxiliary_twice_gives_the_angles', n=int(ok.sum()), error=e, twice=y, **A)
            mon.event('strikes_within_a_radian', int((np.abs(x[0]-s) < 1).sum()))
            mon.event('strike_either_side_of_north', int(((s < 1e-2) | (s > 2*PI-1e-2)).sum()))
        # strike and dip pairs
        q = [flat(z) for z in mon.call('strike_dip_pairs', C.SDR_SDSD, *a)]
        z = np.zeros(n)
        pn = [tt.sdr_vectors(q[0], q[1], z)[0], tt.sdr_vectors(q[2], q[3], z)[0]]
        e = np.minimum(np.maximum(unsigned(pn[0], nu[0]), unsigned(pn[1], au[0])), np.maximum(unsigned(pn[1], nu[0]), unsigned(pn[0], au[0])))
        mon.check((e < TOL).all(), 'strike_dip_pairs_are_the_planes', n=n, error=e, got=q, **A)
        f = [flat(z) for z in mon.call('strike_dip_pairs', C.FP_SDSD, N1, N2)]
        e = np.maximum(unsigned(tt.sdr_vectors(f[0], f[1], z)[0], v1), unsigned(tt.sdr_vectors(f[2], f[3], z)[0], v2))
        mon.check((e < TOL).all(), 'normals_to_strike_dip', n=n, error=e, got=f, **A)
        w1, w2 = mon.call('strike_dip_pairs', C.SDSD_FP, *q)
        w1, w2 = np.asarray(w1, dtype=float), np.asarray(w2, dtype=float)
        e = np.minimum(np.maximum(unsigned(w1, nu[0]), unsigned(w2, au[0])), np.maximum(unsigned(w2, nu[0]), unsigned(w1, au[0])))
        mon.check((e < TOL).all(), 'strike_dip_pairs_to_normals', n=n, error=e, **A)


def unsigned(a, b):
    return np.minimum(np.abs(a-b).max(0), np.abs(a+b).max(0))


def generic(s, d, k):
    return (d > 1e-3) & (d < PI/2-1e-3)


def one_of(mon, t, s, d, k, nu, au, rule, A):
    v = tt.sdr_vectors(*t)
    e = np.minimum(plane_err(v, nu), plane_err(v, au))
    mon.check((e < TOL).all(), rule, n=len(e), error=e, measured=t, **A)
    ok = generic(s, d, k) & (plane_err(v, nu) < plane_err(v, au))
    if ok.any():
        e = angle_err(t, (s, d, k))[ok]
        mon.check((e < 1e-6).all(), rule+'_angles', n=int(ok.sum()), error=e, measured=t, **A)


def w_result(mon):
    from MTfit import convert as C
    r = mon.rng
    R = PI/180
    for it in range(mon.n(400, 4000)):
        n = int(r.choice([1, 2, 3, 8]))
        if it % 2:
            s, d, k = angles(r, n)
            m = tt.sdr_tensor(s, d, k)
        else:
            m = np.array([tt.unit6(r)[0] for _ in range(n)]).T
        o = mon.call('output_accepts', C.output_convert, m.copy())
        mon.cases(m)
        a = [flat(o[x]) for x in ('S1', 'D1', 'R1')]
        b = [flat(o[x]) for x in ('S2', 'D2', 'R2')]
        if not mon.check(all(len(x) == n for x in a+b), 'one_plane_per_source'):
            continue
        mon.check(max(np.abs(a[2]).max(), np.abs(b[2]).max()) <= 180+1e-9 and max(a[1].max(), b[1].max()) <= 90+1e-9 and max(a[0].max(), b[0].max()) <= 360
                  and min(a[0].min(), b[0].min(), a[1].min(), b[1].min()) >= 0, 'degree_ranges', n=n, first=a, second=b, m=m)
        a, b = [x*R for x in a], [x*R for x in b]
        ta, tb = tt.sdr_tensor(*a), tt.sdr_tensor(*b)
        same(mon, ta, tb, 'both_planes_same_tensor', m=m, planes=(a, b))
        e = plane_err(tt.sdr_vectors(*b), aux_true(*a))
        mon.check((e < TOL).all(), 'planes_are_auxiliary', n=n, error=e, m=m, planes=(a, b))
        w, V = np.linalg.eigh(tt.m33(m))
        gap = np.minimum(w[:, 1]-w[:, 0], w[:, 2]-w[:, 1])
        ok = gap > 1e-5
        if ok.any():
            want = tp(V[:, :, 2].T, V[:, :, 0].T)
            same(mon, ta[:, ok], want[:, ok], 'planes_of_the_principal_axes', m=m, planes=(a, b))
        # the Tape orientation of the result is one of the two planes
        t = [flat(o['k']), np.arccos(flat(o['h'])), flat(o['s'])]
        same(mon, tt.sdr_tensor(*t), ta, 'tape_orientation_same_tensor', m=m)
        e = np.minimum(plane_err(tt.sdr_vectors(*t), tt.sdr_vectors(*a)), plane_err(tt.sdr_vectors(*t), tt.sdr_vectors(*b)))
        mon.check((e < TOL).all(), 'tape_orientation_is_a_plane', n=n, error=e, m=m)


W = {
    'angles': dict(fn=w_angles, shards={'thorough': 4}, need={'auxiliary_is_involution': 800, 'normal_slip_round_trip': 800, 'strike_either_side_of_north': 100, 'scalar_inputs': 50}),
    'result': dict(fn=w_result, shards={'thorough': 2}, need={'planes_are_auxiliary': 500, 'planes_of_the_principal_axes': 300}),
}
if __name__ == '__main__':
    harness.main('C13', __file__, W, rule='an observation is one (strike, dip, rake) or tensor put through every conversion and back; distinct by content',
                 assumptions=['vertical planes are described by (s, 90, r) and (s+180, 90, -r), horizontal ones by any strike: compared as vectors there', 'axes do not say which plane was the fault: either nodal plane is accepted from axes'])
