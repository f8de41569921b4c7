"""C11: station coefficients reproduce P/SH/SV radiation and stay aligned with the data.

Oracle: v.M.g formed from the ray and polarisation vectors. The matrices built from a data dictionary
are compared, station by station, with the file's own observations in whatever order they come."""
import copy
import numpy as np
from vpm import harness, events as ev, tensors as tt

FORMS = ['column', 'row', 'array', 'list', 'nested', 'tuple']


def stations(form, az, toa):
    if form == 'column':
        return {'Azimuth': np.matrix(az).T, 'TakeOffAngle': np.matrix(toa).T}
    if form == 'row':
        return {'Azimuth': np.matrix(az), 'TakeOffAngle': np.matrix(toa)}
    if form == 'array':
        return {'Azimuth': np.array(az), 'TakeOffAngle': np.array(toa)}
    if form == 'list':
        return {'Azimuth': list(az), 'TakeOffAngle': list(toa)}
    if form == 'nested':
        return {'Name': ['S%d' % i for i in range(len(az))], 'Azimuth': np.array(az)[:, None], 'TakeOffAngle': np.array(toa)[:, None]}
    return (np.matrix(az).T, np.matrix(toa).T)


def label(r, p):
    return r.choice([p.upper(), p, p.upper()+'Q', p+'q'])


def w_radiation(mon):
    from MTfit.inversion import station_angles
    r = mon.rng
    for it in range(mon.n(4000, 40000)):
        n = int(r.choice([1, 1, 2, 3, 5, 6, 7, 12]))
        az, toa = ev.angles(r, n, wild=True)
        M = np.array([np.asarray(tt.hostile6(r)).flatten() for _ in range(5)]).T if r.random() < .5 else r.normal(size=(6, 5))*10**r.uniform(-3, 3)
        rad = bool(r.integers(2))
        form = str(r.choice(FORMS))
        st = stations(form, np.radians(az) if rad else az, np.radians(toa) if rad else toa)
        before = copy.deepcopy(st)
        T = tt.m33(M)
        ps = [p for p in ('p', 'sh', 'sv')]
        out = {}
        mon.case([az, toa, M, form, rad], sample=dict(azimuth=az, takeoff=toa, form=form, radians=rad))
        for p in ps:
            lab = str(label(r, p))
            a = mon.call('coefficients_of_any_direction', station_angles, st, lab, radians=rad) if rad or r.random() < .5 else mon.call('coefficients_of_any_direction', station_angles, st, lab)
            d = dict(azimuth=az, takeoff=toa, phase=lab, form=form, radians=rad)
            a = np.asarray(a, dtype=float)
            if not mon.check(a.shape == (n, 6), 'one_row_per_station', got=a.shape, **d):
                continue
            v, g = ev.ray(az, toa, p)
            want = np.einsum('in,kij,jn->nk', v, T, g)
            mon.close(a.dot(M), want, 'far_field_'+p, rtol=1e-10, atol=1e-10*np.abs(M).max(), tensor=M, **d)
            out[p] = a
            # rotated together about the vertical
            t = r.uniform(-360, 360)
            c, s = np.cos(np.radians(t)), np.sin(np.radians(t))
            Q = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
            M2 = tt.M6_33(np.einsum('ij,kjl,ml->kim', Q, T, Q))
            st2 = stations(form, np.radians(az+t) if rad else az+t, np.radians(toa) if rad else toa)
            a2 = np.asarray(mon.call('coefficients_of_any_direction', station_angles, st2, lab, radians=rad), dtype=float)
            mon.close(a2.dot(M2), a.dot(M), 'rotation_about_vertical', rtol=1e-9, atol=1e-9*np.abs(M).max(), angle=t, **d)
        x, y = r.permutation(ps)[:2]
        if len(out) == 3:
            res = mon.call('ratio_of_phases', station_angles, st, '%s/%s' % (label(r, x), label(r, y)), radians=rad)
            if mon.check(isinstance(res, (tuple, list)) and len(res) == 2, 'ratio_is_a_pair', got=repr(res)[:200]):
                mon.close(res[0], out[x], 'ratio_numerator', rtol=0, atol=1e-14, phase=x)
                mon.close(res[1], out[y], 'ratio_denominator', rtol=0, atol=1e-14, phase=y)
        same = all(np.array_equal(np.asarray(st[k]), np.asarray(before[k])) for k in (st if isinstance(st, dict) else range(2)))
        mon.check(same, 'stations_not_modified', form=form)


def rows(parts, n, v):
    """one comparable row per observation"""
    out = []
    for p in parts:
        p = np.asarray(p, dtype=float)
        p = p.reshape(n, -1)
        out.append(p)
    return np.concatenate(out, 1)


def same_set(mon, got, want, rule, **d):
    """the two sets of rows are the same up to order (order is free, pairing is not)"""
    if not mon.check(got.shape == want.shape, rule+'_shape', got=got.shape, want=want.shape, **d):
        return
    left = list(range(len(want)))
    for i in range(len(got)):
        e = [np.max(np.abs(got[i]-want[j])/(1e-9+np.abs(want[j])*1e-9)) for j in left]
        k = int(np.argmin(e)) if e else -1
        if not mon.check(e and e[k] <= 1, rule, row=got[i], nearest=want[left[k]], index=i, **d):
            return
        left.pop(k)


def pick_keys(r):
    keys = []
    kinds = r.random(4) < .6
    if kinds[0]:
        keys += list(r.permutation(ev.POL)[:r.integers(1, 4)])
    if kinds[1]:
        keys += list(r.permutation(ev.PROB)[:r.integers(1, 4)])
    if kinds[2]:
        keys += list(r.permutation(ev.RATIO)[:r.integers(1, 5)])
    if kinds[3] or not keys:
        keys += list(r.permutation(ev.AMP+['PRMSQAmplitude'])[:r.integers(1, 5)])
    if r.random() < .2:
        keys += [str(r.choice(['P/SHRMSQAmplitudeRatio', 'PPolarity2', 'P/SH_AmplitudeRatio', 'P_Amplitude']))]
    return [str(k) for k in keys]


def w_matrices(mon):
    from MTfit import inversion as I
    r = mon.rng
    for it in range(mon.n(2500, 25000)):
        keys = pick_keys(r)
        e = ev.make(r, keys, nmax=9)
        loc, table = None, None
        if r.random() < .6:
            k = int(r.choice([1, 2, 3, 7]))
            loc, table = ev.location_records(r, e.net, k)
        data = e.data
        if r.random() < .5:
            data['UID'] = 'event'
        before, lbefore = copy.deepcopy(data), copy.deepcopy(loc)
        d = dict(keys=keys, data=data, location=loc)
        mon.case([repr(sorted((o['key'], o['name'], o['az'], o['toa']) for o in e.obs)), repr(loc)], sample=dict(keys=keys, observations=len(e.obs), location_samples=0 if loc is None else len(loc)))
        mon.event('location_records', 0 if loc is None else len(loc))
        mon.event('types', len(keys))
        mon.event('single_station_types', sum(len(x['Stations']['Name']) == 1 for k, x in data.items() if k != 'UID'))
        args = (data,) if loc is None else (data, loc)
        calls = ['pol', 'prob', 'ratio', 'amp']
        r.shuffle(calls)
        v = 1 if loc is None else len(loc)
        for c in calls:
            obs = e.of(c)
            n = len(obs)
            if c == 'pol':
                a, err, w = mon.call('polarity_matrix', I.polarity_matrix, *args)
                if not n:
                    mon.check(isinstance(a, bool) and not a, 'absent_type_is_false', got=repr(a)[:100])
                    continue
                W = np.array([o['w'] for o in obs])
                if not hasattr(a, 'shape') or not mon.check(a.shape == (n, v, 6) and np.size(err) == n, 'polarity_shape', got=np.shape(a), want=(n, v, 6), **d):
                    mon.check(hasattr(a, 'shape'), 'polarity_present', got=repr(a)[:100], **d)
                    continue
                w = np.asarray(w, dtype=float).flatten()
                if w.size == 1:
                    w = np.ones(n)*w[0]
                if not mon.check(w.size == n, 'one_mispick_probability_per_observation', got=w, want=W, **d):
                    continue
                want = ev.coeffs(obs, table)*np.array([o['y'] for o in obs]).reshape(n, 1, 1)
                same_set(mon, rows([a, err, w], n, v), rows([want, [o['s'] for o in obs], W], n, v), 'polarity_pairing', **d)
            elif c == 'prob':
                a, pp, w = mon.call('polarity_probability_matrix', I.polarity_probability_matrix, *args)
                if not n:
                    mon.check(isinstance(a, bool) and not a, 'absent_type_is_false', got=repr(a)[:100])
                    continue
                w = np.asarray(w, dtype=float).flatten()
                if w.size == 1:
                    w = np.ones(n)*w[0]
                if not mon.check(np.shape(a) == (n, v, 6) and len(pp) == 2 and np.size(pp[0]) == n and np.size(pp[1]) == n and w.size == n, 'polarity_probability_shape',
                                 got=[np.shape(a), np.shape(pp[0]), np.shape(pp[1]), w.shape], want=(n, v, 6), **d):
                    continue
                same_set(mon, rows([a, pp[0], pp[1], w], n, v), rows([ev.coeffs(obs, table), [o['pp'] for o in obs], [o['pn'] for o in obs], [o['w'] for o in obs]], n, v),
                         'polarity_probability_pairing', **d)
            elif c == 'ratio':
                a1, a2, z, p1, p2 = mon.call('amplitude_ratio_matrix', I.amplitude_ratio_matrix, *args)
                if not n:
                    mon.check(isinstance(a1, bool) and not a1, 'absent_type_is_false', got=repr(a1)[:100])
                    continue
                if not mon.check(np.shape(a1) == (n, v, 6) and np.shape(a2) == (n, v, 6) and np.size(z) == n and np.size(p1) == n and np.size(p2) == n, 'amplitude_ratio_shape',
                                 got=[np.shape(q) for q in (a1, a2, z, p1, p2)], want=(n, v, 6), **d):
                    continue
                same_set(mon, rows([a1, a2, z, p1, p2], n, v), rows([ev.coeffs(obs, table, 0), ev.coeffs(obs, table, 1)]+[[o[q] for o in obs] for q in ('z', 'p1', 'p2')], n, v),
                         'amplitude_ratio_pairing', **d)
            else:
                a, x, p, nm = mon.call('relative_amplitude_ratio_matrix', I.relative_amplitude_ratio_matrix, *args)
                if not n:
                    mon.check(isinstance(a, bool) and not a, 'absent_type_is_false', got=repr(a)[:100])
                    continue
                if not mon.check(np.shape(a) == (n, v, 6) and np.size(x) == n and np.size(p) == n and len(nm) == n, 'relative_amplitude_shape',
                                 got=[np.shape(q) for q in (a, x, p, nm)], want=(n, v, 6), **d):
                    continue
                allnames = sorted(set(o['name'] for o in obs))
                code = [allnames.index(str(q)) if str(q) in allnames else -1 for q in nm]
                same_set(mon, rows([a, x, p, code], n, v), rows([ev.coeffs(obs, table), [o['x'] for o in obs], [o['p'] for o in obs], [allnames.index(o['name']) for o in obs]], n, v),
                         'relative_amplitude_pairing', **d)
        # nothing handed in is changed: the next matrix is built from the same records
        mon.check(repr(before) == repr(data), 'data_not_modified', **d)
        mon.check(repr(lbefore) == repr(loc), 'location_records_not_modified', **d)


W = {
    'radiation': dict(fn=w_radiation, flavours=['py'], shards={'thorough': 4}, need={'far_field_sv': 1000, 'rotation_about_vertical': 1000, 'ratio_numerator': 500}),
    'matrices': dict(fn=w_matrices, flavours=['py'], shards={'quick': 2, 'thorough': 4}, need={'polarity_pairing': 300, 'polarity_probability_pairing': 300, 'amplitude_ratio_pairing': 300,
                     'relative_amplitude_pairing': 300, 'location_records': 300}),
}
if __name__ == '__main__':
    harness.main('C11', __file__, W, rule='an observation is one set of ray directions with tensors, or one data dictionary with its location records; distinct by content',
                 assumptions=['a station occurs once within a data type', 'location records list at least the stations of the data'])
