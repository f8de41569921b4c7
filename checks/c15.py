"""C15: the joint posterior of several events is the sum of each event's own log-probability and one
ratio term per pair of events on the stations they share.

Monitored: MultipleEventsForwardTask results (values, candidates, scale factors) against an
independent interval oracle; the relative amplitude likelihood and its scale estimate per station,
over stations, over station orders and towards zero noise; and joint front-end runs."""
import contextlib
import copy
import gc
import io
import os
import shutil
import sys
import tempfile
import numpy as np
from vpm import harness, events as ev, likelihood as lk
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c01  # noqa: E402


# -- the scale of one station: mean and deviation of the density of the scale s implied by the ratio
# density with a positive denominator: (A s+B) N(s; mu1, s1) + C N(s; 0, sx/mux)
def station_scale(z, mx, my, p1, p2):
    L = np.longdouble
    z, mx, my, p1, p2 = [np.asarray(q, dtype=L) for q in (z, mx, my, p1, p2)]
    with np.errstate(all='ignore'):
        mu1 = z*my/mx
        al, be = (p2*my*z/mx)**2, p1**2
        s12 = al+be
        q = my/mx
        A, B = al/z, be*q
        C = np.sqrt(L(2)/L(np.pi))*be*p2*q*np.exp(-1/(2*p2**2))/s12
        N = A*mu1+B+C
        d = (A*s12-C*mu1)/N
        var = (s12*(A*mu1+B)+C*(be+mu1**2))/N-d*d
        scale = (s12*(A*mu1+B)+C*(be+mu1**2))/N
    return mu1+d, var, scale


def combine(mu, var):
    """inverse-variance weighted over stations (axis 0)"""
    with np.errstate(all='ignore'):
        w = 1/var
        return (mu*w).sum(0)/w.sum(0), np.sqrt(1/w.sum(0))


def fcall(mon, xi, xj, mi, mj, ai, aj, pi, pj, **k):
    from MTfit.probability import relative_amplitude_ratio_ln_pdf as f
    c = [np.ascontiguousarray(np.array(q, dtype=float)) for q in (xi, xj, mi, mj, ai, aj, pi, pj)]
    ln, s, e = mon.call('relative_likelihood', f, *c, **k)
    return np.asarray(ln, dtype=float), np.asarray(s, dtype=float), np.asarray(e, dtype=float)


def relative_term(z, ai, aj, mi, mj, pi, pj, s):
    """interval of the ratio term for scale s (v,n); arrays (u,v,6)"""
    u = len(z)
    z, p1, p2 = [np.asarray(q, dtype=float).reshape(u, 1, 1) for q in (z, pi, pj)]
    (x, ex), (y, ey) = lk.amps(ai, mi), lk.amps(aj, mj)
    with np.errstate(all='ignore'):
        mx, my = s*np.abs(x), np.abs(y)
        want = np.logaddexp(lk.ln_signed(z, mx, my, p1*mx, p2*my), lk.ln_signed(-z, mx, my, p1*mx, p2*my))
        big = (mx-z*my)**2/(p1**2*mx**2+z**2*p2**2*my**2)
        # the scale itself moves with every amplitude
        rel = (ex/np.abs(x)+ey/my)
        cond = rel+rel.max(0)+1e-11
        tol = 1e-9+6e-15*(1/p1**2+1/p2**2)+1e-10*np.abs(want)+0.5*cond*(1+np.sqrt(big)/np.minimum(p1, p2)+big)
        bad = ~np.isfinite(want) | (cond > 1e-4)
        tol = np.where(bad, np.inf, tol)
        lo, hi = np.where(bad, -np.inf, want-tol), np.where(bad, np.inf, want+tol)
    lo = np.where(want < -690, -np.inf, lo)
    hi = np.where(want < -690, hi+1+0.01*np.abs(want), hi)
    return lo.sum(0), hi.sum(0)


def shared(a, b):
    """pairs of observations of one phase at one station, in the order of event a; a type with the same
    phase occurring again is its next occurrence"""
    def tag(obs):
        out, seen = [], {}
        for o in obs:
            k = (o['name'], o['phase'])
            seen[k] = seen.get(k, 0)+1
            out.append((k, seen[k]))
        return out
    ta, tb = tag(a), tag(b)
    return [(a[i], b[tb.index(t)]) for i, t in enumerate(ta) if t in tb]


def amp_obs(e, table):
    """the order the code keeps: types sorted"""
    out = []
    for key in sorted(e.data):
        out += [o for o in e.obs if o['kind'] == 'amp' and o['key'] == key]
    if table is not None:
        out = [o for o in out if o['name'] in table[0]]
    return out


def station_estimates(mon, prs, ti, tj, mi, mj):
    """each shared station on its own, as the code estimates it"""
    mu, sd = [], []
    for oi, oj in prs:
        ln, s, e = fcall(mon, [oi['x']], [oj['x']], mi, mj, ev.coeffs([oi], ti), ev.coeffs([oj], tj), [oi['p']], [oj['p']])
        mu.append(s)
        sd.append(e)
    return np.array(mu), np.array(sd)


def pair_term(mon, prs, ti, tj, mi, mj):
    """(lo, hi, scale, deviation) of one pair; a NaN scale is unresolved"""
    mu, sd = station_estimates(mon, prs, ti, tj, mi, mj)
    v, n = mu.shape[1:]
    s, dev = combine(mu, sd**2)
    oi, oj = [p[0] for p in prs], [p[1] for p in prs]
    z = np.array([a['x']/b['x'] for a, b in prs])
    lo, hi = relative_term(z, ev.coeffs(oi, ti), ev.coeffs(oj, tj), mi, mj, [o['p'] for o in oi], [o['p'] for o in oj], s)
    (x, ex), (y, ey) = lk.amps(ev.coeffs(oi, ti), mi), lk.amps(ev.coeffs(oj, tj), mj)
    with np.errstate(all='ignore'):
        # an amplitude that is zero to rounding, or a scale without a variance
        bad = ~np.isfinite(s) | ~np.isfinite(dev) | ~(dev > 0) | ((ex/np.abs(x)+ey/np.abs(y)).max(0) > 1e-9)
    lo, hi = np.where(bad, -np.inf, lo), np.where(bad, np.inf, hi)
    return lo, hi, np.where(bad, np.nan, s), np.where(bad, np.nan, dev)


# -- generated scenes
def gen_net(r, n):
    return ev.network(r, n)


def scene(r, ne=None, relative=None, front=False):
    ne = int(r.choice([2, 2, 3, 4])) if ne is None else ne
    net = gen_net(r, int(r.integers(3, 9)))
    names = net[0]
    relative = bool(r.random() < .75) if relative is None else relative
    ph = [str(x) for x in r.permutation(['P', 'SH', 'SV'])[:r.choice([1, 1, 2, 3])]]
    q = [str(r.choice(['', 'RMS', 'Q', 'QRMS'])) for _ in ph]
    ampkeys = [p+s+'Amplitude' for p, s in zip(ph, q)]
    if r.random() < .1 and len(ph) == 1:
        ampkeys = [ph[0]+'Amplitude', ph[0]+'RMSAmplitude']
    overlap = str(r.choice(['free', 'same', 'reordered', 'partial', 'none', 'free']))
    evs = []
    base = [str(x) for x in r.permutation(names)[:r.integers(1, len(names)+1)]]
    cut = [str(x) for x in r.permutation(names)]
    for i in range(ne):
        keys = c01.pick_keys(r)
        model = r.normal(size=6)
        model /= np.sqrt((model**2).sum())
        an = None
        if overlap in ('same', 'reordered'):
            an = list(base) if overlap == 'same' else [str(x) for x in r.permutation(base)]
        elif overlap == 'none':
            an = cut[i::ne] or None
        elif overlap == 'partial':
            an = [x for x in base if r.random() < .7] or [names[0]]
        ak = list(ampkeys) if (relative or r.random() < .3) else []
        if an is None and overlap == 'none':
            ak = []
        if relative and r.random() < .06:
            ak = []
        if front and not ak and relative:
            ak = list(ampkeys)
        # its own angles: events need not be co-located
        net_i = net if r.random() < .5 else (names,)+ev.angles(r, len(names))
        e = ev.make(r, keys+ak, net=net_i, nmax=5 if not front else 2, model=model if r.random() < .8 else None, amp_names=an, sigma0=not front or r.random() < .3)
        e.model = model
        evs.append(e)
    return evs, relative, overlap, ampkeys


def gen_tables(r, evs, k):
    locs, tables = [], []
    for e in evs:
        l, t = ev.location_records(r, e.net, k, spread=float(r.choice([0., 1., 10., 40.])))
        locs.append(l)
        tables.append(t)
    return locs, tables


def inputs(mon, evs, locs):
    from MTfit import inversion as I
    ms, rel = [], []
    for i, e in enumerate(evs):
        loc = locs[i]
        ms.append(c01.matrices(mon, e.data, loc))
        args = (e.data,) if loc is None else (e.data, ev.copy_records(loc))
        rel.append(mon.call('matrices', I.relative_amplitude_ratio_matrix, *args))
    return ms, rel


def joint(mon, mts, ms, rel, weights, opts, relative, task=None):
    from MTfit.inversion import MultipleEventsForwardTask
    ms, rel = copy.deepcopy(ms), copy.deepcopy(rel)

    def g(k):
        return [m[k] for m in ms]
    if task is None:
        task = MultipleEventsForwardTask([np.array(m) for m in mts], g('a'), g('s'), g('a1'), g('a2'), g('z'), g('p1'), g('p2'), g('ap'), g('pp'),
                                         [q[0] for q in rel] if relative else [], [q[1] for q in rel] if relative else [], [q[2] for q in rel] if relative else [],
                                         [q[3] for q in rel] if relative else [], copy.deepcopy(weights), g('w'), relative=relative, **opts)
    else:
        task.mts = [np.array(m) for m in mts]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = mon.call('joint_task', task)
    return res, task


def expect(mon, evs, tables, weights, mts, relative, mini, L, marg):
    """list of acceptable (lo, hi) over candidates, and the scale factors of each contributing pair"""
    n = mts[0].shape[1]
    per, scales = [], {}
    uni = weights if weights else None
    for e, t, m in zip(evs, tables, mts):
        per.append(c01.expected(e.obs, t, uni if marg else None, m, marg))
    lo, hi = sum(p[0] for p in per), sum(p[1] for p in per)
    npair = 0
    if relative:
        for i in range(len(evs)):
            for j in range(i):
                prs = shared(amp_obs(evs[i], tables[i]), amp_obs(evs[j], tables[j]))
                if len(prs) < mini or not prs:
                    continue
                npair += 1
                a, b, s, d = pair_term(mon, prs, tables[i], tables[j], mts[i], mts[j])
                scales[i, j] = (s, d)
                with np.errstate(invalid='ignore'):
                    lo, hi = np.where(np.isneginf(lo), lo, lo+a), np.where(np.isneginf(hi), hi, hi+b)
    if marg:
        if weights and npair and L == 1:
            return [(lo, hi), (lo+npair*np.log(float(weights[0])), hi+npair*np.log(float(weights[0])))], scales, npair
        return [(lo, hi)], scales, npair
    out = []
    for k in sorted(set([1, len(evs), len(evs)+npair])) if weights else [0]:
        w = [float(x)**k for x in weights] if weights else None
        out.append(lk.location(lo, hi, w, True))
    return out, scales, npair


def any_inside(v, alts):
    for lo, hi in alts:
        if lk.inside(v, lo, hi).all():
            return True, lo, hi
    return False, alts[0][0], alts[0][1]


def check_scales(mon, sf, idx, scales, ne, L, resolved, **d):
    """sf: what the result reports; idx: candidate index of each entry"""
    if not mon.check(not isinstance(sf, bool) and len(sf) == len(idx), 'scale_factor_reported', got=repr(sf)[:200], want=len(idx), **d):
        return
    for q, c in zip(sf, idx):
        mu, sg = np.asarray(q['mu'], dtype=float), np.asarray(q['sigma'], dtype=float)
        mu, sg = mu.reshape(-1, ne, ne), sg.reshape(-1, ne, ne)
        if not mon.check(mu.shape == (L, ne, ne), 'scale_factor_shape', got=mu.shape, want=[L, ne, ne], **d):
            return
        for i in range(ne):
            mon.check((mu[:, i, i] == 1).all(), 'scale_to_itself_is_one', got=mu[:, i, i], **d)
            for j in range(i):
                if (i, j) in scales:
                    s, e = scales[i, j][0][:, c], scales[i, j][1][:, c]
                    ok = np.isnan(s) | (np.abs(mu[:, i, j]-s) <= 1e-8*np.abs(s)) & (np.abs(sg[:, i, j]-e) <= 1e-7*e)
                    mon.check(ok.all(), 'scale_is_inverse_variance_combination', n=L, got=[mu[:, i, j], sg[:, i, j]], want=[s, e], pair=(i, j), **d)
                else:
                    mon.check((mu[:, i, j] == 0).all(), 'no_scale_without_shared_stations', got=mu[:, i, j], pair=(i, j), **d)


def judge(mon, res, mts, alts, rz, scales, relative, L, d):
    ne, n = len(mts), mts[0].shape[1]
    if not mon.check(isinstance(res, dict) and all(k in res for k in ('moment_tensors', 'ln_pdf', 'n')), 'joint_result', got=repr(res)[:300], **d):
        return None
    mon.check(res['n'] == n, 'n_counts_every_candidate', got=res['n'], want=n, **d)
    v = np.asarray(res['ln_pdf']._ln_pdf if hasattr(res['ln_pdf'], '_ln_pdf') else res['ln_pdf'], dtype=float)
    lo, hi = alts[0]
    empty = v.size == 0
    if empty:
        mon.event('nothing_returned')
        mon.check(not rz and all(np.isneginf(a[0]).all() for a in alts), 'joint_sum', reason='nothing returned', lo=lo, hi=hi, **d)
        return v
    m = [np.asarray(q, dtype=float) for q in res['moment_tensors']]
    if not mon.check(len(m) == ne and all(q.ndim == 2 and q.shape[0] == 6 and q.shape[1] == v.size for q in m), 'joint_result_shape', got=[v.shape]+[q.shape for q in m], **d):
        return None
    v = v.reshape(1, -1)
    if rz:
        if not mon.check(v.size == n, 'joint_result_shape', got=v.shape, want=n, **d):
            return None
        mon.check(all(np.array_equal(a, b) for a, b in zip(m, mts)), 'candidates_returned_unchanged', **d)
        idx = list(range(n))
    else:
        where = {}
        for c in range(n):
            where.setdefault(np.concatenate([q[:, c] for q in mts]).tobytes(), []).append(c)
        idx = []
        for c in range(v.size):
            k = where.get(np.concatenate([q[:, c] for q in m]).tobytes(), [])
            if not mon.check(bool(k), 'filtered_tuple_is_a_candidate', column=c, **d):
                return None
            idx.append(k.pop(0))
        mon.check((v > -np.inf).all(), 'filtered_has_no_zero', got=v, **d)
        gone = [c for c in range(n) if c not in idx]
        mon.check(any(np.isneginf(a[0][:, gone]).all() for a in alts), 'only_zero_probability_is_filtered', n=max(1, len(gone)), gone=gone, lo=lo[:, gone], **d)
        mon.event('filtered', len(gone))
    ok, lo, hi = any_inside(v, [(a[0][:, idx], a[1][:, idx]) for a in alts])
    mon.event('resolved_values', int((np.isfinite(lo) & (hi-lo < 1e-3)).sum()))
    b = ~lk.inside(v, lo, hi)
    mon.check(ok, 'joint_sum', n=v.size, got=v[b][:3], lo=lo[b][:3], hi=hi[b][:3], **d)
    if relative and 'scale_factor' in res:
        check_scales(mon, res['scale_factor'], idx, scales, ne, L, None, **d)
    return v, idx


def w_task(mon):
    r = mon.rng
    import MTfit.inversion  # noqa: F401
    gc.collect()
    gc.freeze()
    for it in range(mon.n(400 if mon.flavour == 'san' else 550, 4500)):
        evs, relative, overlap, ampkeys = scene(r)
        ne = len(evs)
        L, locs, tables, w = 1, [None]*ne, [None]*ne, False
        if r.random() < .45:
            L = int(r.choice([1, 2, 3, 5]))
            locs, tables = gen_tables(r, evs, L)
            w = c01.gen_weights(r, L) if r.random() < .4 else False
        marg = bool(r.random() < (.3 if not relative or L == 1 else 0))
        mini = int(r.choice([0, 1, 2, 2, 3, 5]))
        ms, rel = inputs(mon, evs, locs)
        n = int(r.choice([1, 1, 2, 3, 6, 20]))
        reuse = bool(r.random() < .35)
        rz = bool(r.random() < .5)
        opts = dict(minimum_number_intersections=mini, return_zero=rz, reuse=reuse, location_sample_size=L, marginalise_relative=marg)
        task = None
        for rep in range(int(r.integers(2, 5)) if reuse else 1):
            mts = []
            for e, t in zip(evs, tables):
                m = c01.gen_mt(r, n, e.model, e.obs, t)
                if r.random() < .15:
                    m = np.repeat(m[:, :1], n, 1)
                if rep == 0 and reuse and r.random() < .4 and e.of('pol'):
                    m = np.repeat(-e.model[:, None]+0., n, 1)
                mts.append(m+0.)
            d = dict(data=[e.data for e in evs], overlap=overlap, location=locs, weights=w, options=opts, relative=relative, mts=mts, call=rep)
            mon.case([repr(d['data']), repr(locs), repr(w), repr(opts)]+mts, sample=dict(events=ne, overlap=overlap, relative=relative, types=ampkeys, location_samples=L, options=opts, candidates=n))
            alts, scales, npair = expect(mon, evs, tables, w, mts, relative, mini, L, marg)
            mon.event('contributing_pairs', npair)
            mon.event('pairs_below_the_minimum', int(relative and npair < ne*(ne-1)//2))
            mon.event('location_weighted', int(bool(w)))
            res, task = joint(mon, mts, ms, rel, w, opts, relative, task)
            got = judge(mon, res, mts, alts, rz, scales, relative, L, d)
            if rep:
                mon.event('reused_calls')
            if not isinstance(got, tuple):
                continue
            v, idx = got
            lo, hi = [x[:, idx] for x in alts[0]]
            width = np.where(np.isfinite(lo) & np.isfinite(hi), hi-lo, np.inf)
            fresh = dict(opts, reuse=False)
            if it % 4 == 0 and n > 1 and rz:
                # batch mates do not matter
                p = r.permutation(n)
                x = joint(mon, [m[:, p] for m in mts], ms, rel, w, fresh, relative)[0]
                x = np.asarray(x['ln_pdf']._ln_pdf, dtype=float).reshape(1, -1)
                mon.check(((np.abs(x-v[:, p]) <= 1e-9*(1+np.abs(x))+width[:, p]) | (x == v[:, p])).all(), 'batch_order_independence', got=x, want=v[:, p], **d)
            if it % 4 == 1 and rz and relative:
                # without relative data: the events on their own, and the difference is the relative term
                x = joint(mon, mts, ms, rel, w, fresh, False)[0]
                x = np.asarray(x['ln_pdf']._ln_pdf, dtype=float).reshape(1, -1)
                a2 = expect(mon, evs, tables, w, mts, False, mini, L, marg)[0]
                mon.check(any_inside(x, a2)[0], 'independent_without_relative_data', n=x.size, got=x, lo=a2[0][0], hi=a2[0][1], **d)
            if it % 4 == 2 and rz and L == 1:
                # the very tasks of the single events
                tot = np.zeros((1, n))
                for m, q in zip(mts, ms):
                    tot = tot+c01.values(c01.task(mon, m, q, w, True, True)[0])[0].reshape(1, -1)
                x = joint(mon, mts, ms, rel, w, fresh, False)[0]
                x = np.asarray(x['ln_pdf']._ln_pdf, dtype=float).reshape(1, -1)
                mon.check(((np.abs(x-tot) <= 1e-9*(1+np.abs(x))) | (x == tot)).all(), 'sum_of_single_event_tasks', n=n, got=x, want=tot, **d)
            if it % 4 == 3 and rz and relative and L == 1:
                # the order the stations are listed in
                rel2 = []
                for q in rel:
                    if isinstance(q[0], np.ndarray):
                        p = r.permutation(len(q[1]))
                        if len(set((str(s), getattr(s, 'phase', None)) for s in q[3])) == len(q[3]):
                            rel2.append((q[0][p], q[1][p], q[2][p], [q[3][i] for i in p]))
                            continue
                    rel2.append(q)
                x = joint(mon, mts, ms, rel2, w, fresh, relative)[0]
                x = np.asarray(x['ln_pdf']._ln_pdf, dtype=float).reshape(1, -1)
                mon.check(((np.abs(x-v) <= 1e-8*(1+np.abs(x))+2*width) | (x == v)).all(), 'station_order_independence', n=n, got=x, want=v, **d)


def w_scale(mon):
    """the likelihood and its scale estimate on their own"""
    r = mon.rng
    import MTfit.inversion  # noqa: F401
    gc.collect()
    gc.freeze()
    for it in range(mon.n(1200, 15000)):
        u, v, n = int(r.choice([1, 2, 3, 5, 12])), int(r.choice([1, 1, 2, 4])), int(r.choice([1, 2, 5]))
        ai, aj = [np.array([[ev.coeff(r.uniform(0, 360), np.degrees(np.arccos(r.uniform(-1, 1))), p) for _ in range(v)] for p in ph])
                  for ph in [[str(x) for x in r.choice(['p', 'sh', 'sv'], u)]]*2]
        mi, mj = r.normal(size=(6, n)), r.normal(size=(6, n))
        if r.random() < .3:
            mj, aj = mi.copy(), ai.copy()
        mi, mj = mi/np.sqrt((mi**2).sum(0)), mj/np.sqrt((mj**2).sum(0))
        T = 10**r.uniform(-4, 4)
        mode = it % 4
        pmax = {0: 0.6, 1: 10**r.uniform(-2, -.3), 2: 10**r.uniform(-7, -2), 3: 10**r.uniform(-12, -6)}[mode]
        pi, pj = pmax*r.uniform(.1, 1, u), pmax*r.uniform(.1, 1, u)
        if mode == 3 and r.random() < .2:
            pi, pj = np.zeros(u), np.zeros(u)
        # observations true to the first candidate (location sample 0)
        x0, y0 = np.abs(lk.amps(ai, mi)[0][:, 0, 0]), np.abs(lk.amps(aj, mj)[0][:, 0, 0])
        if min(x0.min(), y0.min()) < 1e-3:
            continue
        noise = 0. if r.random() < .5 else 1.
        xi = T*x0*(1+noise*pi*np.clip(r.normal(size=u), -2, 2))
        xj = y0*(1+noise*pj*np.clip(r.normal(size=u), -2, 2))
        c = 10**r.uniform(-6, 6)
        xi, xj = np.abs(xi)*c+1e-300, np.abs(xj)*c+1e-300
        d = dict(x_i=xi, x_j=xj, mt_i=mi, mt_j=mj, a_i=ai, a_j=aj, error_i=pi, error_j=pj, true_ratio=T)
        mon.case([xi, xj, mi, mj, ai, aj, pi, pj], sample=dict(stations=u, location_samples=v, candidates=n, true_ratio=T, error=pmax))
        ln, s, e = fcall(mon, xi, xj, mi, mj, ai, aj, pi, pj)
        if not mon.check(s.shape == (v, n) and e.shape == (v, n) and ln.shape == (v, n), 'relative_shapes', got=[ln.shape, s.shape, e.shape], want=[v, n], **d):
            continue
        # single stations
        (X, ex), (Y, ey) = lk.amps(ai, mi), lk.amps(aj, mj)
        X, Y = np.abs(X), np.abs(Y)
        cond = ex/X+ey/Y
        z = (xi/xj).reshape(u, 1, 1)
        zero = pi.max() == 0
        P1, P2 = [np.where(q > 0, q, 1e-24).reshape(u, 1, 1) for q in (pi, pj)]
        mu, var, scale = station_scale(z, X, Y, P1, P2)
        good = (var > 1e-6*scale) & (cond < 1e-9)
        one = [fcall(mon, xi[k:k+1], xj[k:k+1], mi, mj, ai[k:k+1], aj[k:k+1], pi[k:k+1], pj[k:k+1]) for k in range(u)]
        S, E = np.array([q[1] for q in one]), np.array([q[2] for q in one])
        if not mon.check(S.shape == (u, v, n), 'relative_shapes', got=S.shape, want=[u, v, n], **d):
            continue
        tol = 1e-9+3*cond
        with np.errstate(all='ignore'):
            ok = ~good | (np.abs(S-mu) <= tol*mu) & (np.abs(E-np.sqrt(var)) <= (1e-8+1e2*tol)*np.sqrt(var))
        mon.check(ok.all(), 'station_estimate', n=int(good.sum()) or 1, got=[S[~ok][:3], E[~ok][:3]], want=[mu[~ok][:3], np.sqrt(var)[~ok][:3]], **d)
        # over stations
        g = good.all(0)
        cs, ce = combine(np.asarray(S, dtype=np.longdouble), np.asarray(E, dtype=np.longdouble)**2)
        ok = ~g | (np.abs(s-cs) <= 1e-9*np.abs(cs)) & (np.abs(e-ce) <= 1e-8*ce)
        mon.check(ok.all(), 'scale_is_inverse_variance_combination', n=int(g.sum()) or 1, got=[s[~ok][:3], e[~ok][:3]], want=[cs[~ok][:3], ce[~ok][:3]], **d)
        mon.event('combined_scales', int(g.sum()))
        p = r.permutation(u)
        ln2, s2, e2 = fcall(mon, xi[p], xj[p], mi, mj, ai[p], aj[p], pi[p], pj[p])
        ok = ~g | (np.abs(s-s2) <= 1e-9*s) & (np.abs(e-e2) <= 1e-8*e)
        mon.check(ok.all(), 'station_order_independence', n=int(g.sum()) or 1, got=s2, want=s, permutation=p, **d)
        # towards zero noise the scale is the true ratio
        if good[:, 0, 0].all():
            big = max(pi.max(), pj.max())
            if big < 0.05:
                lim = 4*big**2+(8*big if noise else 0)+1e-9+10*cond[:, 0, 0].max()
                mon.check(abs(s[0, 0]/T-1) <= lim, 'scale_tends_to_the_true_ratio', got=s[0, 0], want=T, limit=lim, **d)
                mon.check(np.isfinite(e[0, 0]) and e[0, 0] <= 1.1*(T*pj.max()+pi.max())*(1+2*noise*big)+1e-20*(1+T), 'deviation_vanishes_with_the_noise', got=e[0, 0], **d)
                mon.event('zero_noise_limits', int(big < 1e-6))
        # the value
        if max(pi.min(), pj.min()) > 1e-8:
            lo, hi = relative_term(z.flatten(), ai, aj, mi, mj, pi, pj, np.asarray(cs, dtype=float))
            ok = ~g | lk.inside(ln, lo, hi)
            mon.event('resolved_terms', int((g & np.isfinite(lo) & (hi-lo < 1e-3)).sum()))
            mon.check(ok.all(), 'relative_likelihood', n=int(g.sum()) or 1, got=ln[~ok][:3], lo=lo[~ok][:3], hi=hi[~ok][:3], **d)
        if it % 3 == 0:
            # exchanging the events inverts the ratio: the same estimate, inverted, for small errors
            ln3, s3, e3 = fcall(mon, xj, xi, mj, mi, aj, ai, pj, pi)
            if good[:, 0, 0].all() and max(pi.max(), pj.max()) < 0.05:
                big = max(pi.max(), pj.max())
                lim = 8*big**2+(16*big if noise else 0)+1e-8+20*cond[:, 0, 0].max()
                mon.check(abs(s3[0, 0]*s[0, 0]-1) <= lim, 'exchanged_events_invert_the_scale', got=[s3[0, 0], s[0, 0]], **d)


def w_frontend(mon):
    from MTfit.inversion import Inversion
    r = mon.rng
    cwd = os.getcwd()
    gc.collect()
    gc.freeze()
    for it in range(mon.n(100, 800)):
        evs, relative, overlap, ampkeys = scene(r, ne=int(r.choice([2, 2, 3])), relative=bool(r.random() < .8), front=True)
        ne = len(evs)
        L, locs, tables = 1, [None]*ne, [None]*ne
        opts = {}
        tmp = tempfile.mkdtemp(prefix='vpm_c15_')
        try:
            os.chdir(tmp)
            if r.random() < .35:
                L = int(r.choice([2, 3]))
                locs, tables = gen_tables(r, evs, L)
                paths = []
                for i, l in enumerate(locs):
                    paths.append(os.path.join(tmp, 'l%d.scatangle' % i))
                    c01.write_scat(paths[-1], l, [1.]*L)
                opts['location_pdf_file_path'] = paths
            mini = int(r.choice([1, 2, 3]))
            w = [1.]*L if L > 1 else False
            data = [copy.deepcopy(e.data) for e in evs]
            for i, q in enumerate(data):
                q['UID'] = 'ev%d_%d' % (it, i)
            dc = bool(r.random() < .4)
            N = int(r.choice([100, 400]))
            d = dict(data=data, overlap=overlap, location=locs, options=repr(opts), dc=dc, relative=relative, minimum=mini)
            inv = mon.call('joint_front_end', Inversion, copy.deepcopy(data), algorithm='iterate', parallel=False, phy_mem=0.01, dc=dc, max_samples=N, convert=False, path=tmp,
                           number_samples=int(r.choice([7, 50])), multiple_events=True, relative_amplitude=relative, minimum_number_intersections=mini, **opts)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                mon.call('joint_front_end', inv.forward)
            smp = inv.algorithm.pdf_sample
            v = np.asarray(smp.ln_pdf._ln_pdf, dtype=float)
            k = v.shape[-1] if v.size else 0
            m = np.asarray(smp.moment_tensors, dtype=float)[:, :k]
            mon.case([repr(data), repr(locs), repr(opts), dc, relative, mini], sample=dict(events=ne, overlap=overlap, relative=relative, minimum=mini, dc=dc, tried=smp.n, stored=k))
            mon.check(smp.n >= N, 'front_end_tries_the_requested_samples', got=smp.n, want=N, **d)
            if not k:
                mon.event('front_end_empty')
                continue
            if not mon.check(m.shape[0] == 6*ne, 'front_end_joint_shape', got=m.shape, want=6*ne, **d):
                continue
            mts = [np.ascontiguousarray(m[6*i:6*i+6]) for i in range(ne)]
            sel = np.arange(k)[:60]
            mts = [q[:, sel] for q in mts]
            alts, scales, npair = expect(mon, evs, tables, w, mts, relative, mini, L, False)
            v = v.reshape(-1, k)[:, sel]
            if mon.check(v.shape == alts[0][0].shape, 'front_end_joint_shape', got=v.shape, want=alts[0][0].shape, **d):
                ok, lo, hi = any_inside(v, alts)
                b = ~lk.inside(v, lo, hi)
                mon.event('front_end_resolved', int((np.isfinite(lo) & (hi-lo < 1e-3)).sum()))
                mon.event('front_end_pairs', npair)
                mon.check(ok and np.isfinite(v).all(), 'front_end_joint_sum', n=v.size, got=v[b][:3], lo=lo[b][:3], hi=hi[b][:3], **d)
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)


W = {
    'task': dict(fn=w_task, flavours=['py', 'c', 'san'], shards={'quick': 2, 'thorough': 4}, weight=3,
                 need={'joint_sum': 1000, 'resolved_values': 250, 'contributing_pairs': 200, 'pairs_below_the_minimum': 30, 'reused_calls': 100, 'filtered': 50,
                       'scale_is_inverse_variance_combination': 300, 'sum_of_single_event_tasks': 30, 'station_order_independence': 20, 'independent_without_relative_data': 20}),
    'scale': dict(fn=w_scale, flavours=['py', 'c'], shards={'quick': 1, 'thorough': 4},
                  need={'combined_scales': 500, 'station_estimate': 500, 'zero_noise_limits': 30, 'resolved_terms': 300}),
    'frontend': dict(fn=w_frontend, flavours=['py', 'c'], shards={'quick': 1, 'thorough': 4}, need={'front_end_resolved': 200, 'front_end_pairs': 10}),
}
if __name__ == '__main__':
    harness.main('C15', __file__, W, rule='an observation is one joint task or front-end run (events, overlaps, locations, options, batch) or one call of the relative likelihood; distinct by content',
                 assumptions=['location samples of the events are co-located: the joint value is summed over events per location sample, then over location samples',
                              'non-uniform location weights: once, once per event, or once per term are all accepted (the property does not say)',
                              'each event has at least one data type of its own (C01); relative types are compared phase by phase'])
