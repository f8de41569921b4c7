"""C01: the posterior of a source is the product of its independent data likelihoods.

Every value a forward task (and an Inversion run through the front end) attaches to a source is
compared with an independent interval oracle: sum over observations of the stated likelihoods, then
the weighted sum over location samples. Metamorphic monitors watch the same values exactly: station
order, batch splitting, one type at a time, location order and duplication, zero filtering."""
import copy
import gc
import os
import shutil
import tempfile
import numpy as np
from vpm import harness, events as ev, likelihood as lk, tensors as tt


def pick_keys(r):
    k = r.integers(8)
    pol, prob, rat = k in (0, 3, 4, 7), k in (1, 5), k in (2, 4, 5, 6, 7)
    keys = []
    if pol:
        keys += list(r.permutation(ev.POL)[:r.integers(1, 4)])
    if prob:
        keys += list(r.permutation(ev.PROB)[:r.integers(1, 4)])
    if rat:
        keys += list(r.permutation(ev.RATIO)[:r.integers(1, 4)])
    return [str(k) for k in keys]


def gen_weights(r, k):
    m = r.integers(7)
    if m == 0:
        return False
    if m == 1:
        return [1.0]*k
    if m == 2:
        # mean exactly one, not all one
        w = np.ones(k)
        for i in range(0, k-1, 2):
            q = r.choice([0.25, 0.5, 0.75])
            w[i], w[i+1] = 1-q, 1+q
        return [float(x) for x in w]
    if m == 3:
        return [int(x) for x in r.integers(1, 6, k)]
    return [float(x) for x in 10**r.uniform(-4, 4, k)] if m == 4 else [float(x) for x in r.uniform(0.1, 3, k)]


def matrices(mon, data, loc):
    from MTfit import inversion as I
    args = (data,) if loc is None else (data, ev.copy_records(loc))
    a, s, w = mon.call('matrices', I.polarity_matrix, *args)
    a1, a2, z, p1, p2 = mon.call('matrices', I.amplitude_ratio_matrix, *args)
    ap, pp, w2 = mon.call('matrices', I.polarity_probability_matrix, *args)
    return dict(a=a, s=s, a1=a1, a2=a2, z=z, p1=p1, p2=p2, ap=ap, pp=pp, w=w2 if isinstance(a, bool) else w)


def cp(x):
    return copy.deepcopy(x)


def task(mon, mt, m, weights, return_zero=True, marginalise=True, reuse=False):
    from MTfit.inversion import ForwardTask
    q = {k: cp(v) for k, v in m.items()}
    t = ForwardTask(cp(mt), q['a'], q['s'], q['a1'], q['a2'], q['z'], q['p1'], q['p2'], q['ap'], q['pp'], cp(weights), q['w'],
                    return_zero=return_zero, marginalise=marginalise, reuse=reuse)
    return mon.call('forward_task', t), t


def values(res):
    lp = res['ln_pdf']
    return np.asarray(lp._ln_pdf if hasattr(lp, '_ln_pdf') else lp, dtype=float), np.asarray(res['moment_tensors'], dtype=float)


def expected(obs, table, weights, mt, marginalise=True):
    k = 1 if table is None else len(table)
    lo, hi = np.zeros((k, mt.shape[1])), np.zeros((k, mt.shape[1]))
    pol = [o for o in obs if o['kind'] == 'pol']
    prob = [o for o in obs if o['kind'] == 'prob']
    rat = [o for o in obs if o['kind'] == 'ratio']
    if pol:
        a = ev.coeffs(pol, table)*np.array([o['y'] for o in pol]).reshape(-1, 1, 1)
        x = lk.polarity(a, [o['s'] for o in pol], [o['w'] for o in pol], mt)
        lo, hi = lo+x[0], hi+x[1]
    if prob:
        x = lk.polarity_probability(ev.coeffs(prob, table), [o['pp'] for o in prob], [o['pn'] for o in prob], [o['w'] for o in prob], mt)
        lo, hi = lo+x[0], hi+x[1]
    if rat:
        x = lk.ratio(ev.coeffs(rat, table, 0), ev.coeffs(rat, table, 1), [o['z'] for o in rat], [o['p1'] for o in rat], [o['p2'] for o in rat], mt)
        with np.errstate(invalid='ignore'):
            lo, hi = np.where(np.isneginf(lo), lo, lo+x[0]), np.where(np.isneginf(hi), hi, hi+x[1])
    return lk.location(lo, hi, weights if weights else None, marginalise)


def gen_mt(r, n, model, obs=(), table=None):
    mt = np.array([np.asarray(tt.hostile6(r)).flatten() for _ in range(n)]).T if r.random() < .3 else r.normal(size=(6, n))
    if model is not None:
        near = r.random(n) < .5
        mt = np.where(near, model[:, None]+0.2*r.normal(size=(6, n)), mt)
    q = np.sqrt((mt*mt).sum(0))
    mt[:, q < 1e-9] = r.normal(size=(6, int((q < 1e-9).sum())))
    mt = mt/np.sqrt((mt*mt).sum(0))+0.
    if obs and r.random() < .3:
        # a candidate exactly contradicting the data
        mt[:, 0] = -mt[:, -1]+0.
    return mt


def scene(r, nmax=7):
    keys = pick_keys(r)
    model = None
    if r.random() < .7:
        model = r.normal(size=6)
        model /= np.sqrt((model**2).sum())
    e = ev.make(r, keys, nmax=int(r.choice([1, 2, nmax, nmax])), model=model)
    loc, table, w = None, None, False
    if r.random() < .65:
        k = int(r.choice([1, 2, 3, 4, 8]))
        loc, table = ev.location_records(r, e.net, k, spread=float(r.choice([0., 1., 10., 40.])), dup=True)
        w = gen_weights(r, k)
    return keys, model, e, loc, table, w


def judge(mon, res, mt, lo, hi, return_zero, rule, /, **d):
    if not mon.check(isinstance(res, dict) and all(k in res for k in ('moment_tensors', 'ln_pdf', 'n')), rule+'_result', got=repr(res)[:300], **d):
        return None
    v, m = values(res)
    n = mt.shape[1]
    mon.check(res['n'] == n, 'n_counts_every_candidate', got=res['n'], want=n, **d)
    if v.size == 0 and not return_zero:
        if not mon.check(np.isneginf(lo.max(0)).all(), rule, reason='nothing returned', lo=lo, hi=hi, **d):
            return None
        mon.event('all_zero_batches')
        return v
    if return_zero:
        if v.size == n and np.isneginf(v).all() and lo.shape[0] > 1:
            v = np.broadcast_to(v.reshape(1, n), lo.shape)
        if not mon.check(v.size == lo.size, rule+'_shape', got=v.shape, want=lo.shape, **d):
            return None
        v = v.reshape(lo.shape)
        mon.check(m.shape == mt.shape and np.array_equal(m, mt), 'candidates_returned_unchanged', got=m.shape, want=mt.shape, **d)
        ok = lk.inside(v, lo, hi)
        mon.event('resolved_values', int((np.isfinite(lo) & (hi-lo < 1e-3)).sum()))
        mon.event('zero_values', int(np.isneginf(v).sum()))
        mon.check(ok.all(), rule, n=v.size, got=v[~ok][:3], lo=lo[~ok][:3], hi=hi[~ok][:3], **d)
        return v
    # filtered: every returned column is one of the candidates, with its own value
    if not mon.check(m.ndim == 2 and m.shape[0] == 6 and v.reshape(-1, m.shape[1]).shape[0] == lo.shape[0], rule+'_shape', got=[v.shape, m.shape], **d):
        return None
    v = v.reshape(lo.shape[0], -1)
    where = {mt[:, j].tobytes(): [] for j in range(n)}
    for j in range(n):
        where[mt[:, j].tobytes()].append(j)
    used = []
    for c in range(m.shape[1]):
        js = where.get(np.ascontiguousarray(m[:, c]).tobytes(), [])
        js = [j for j in js if j not in used]
        if not mon.check(bool(js), 'filtered_column_is_a_candidate', column=m[:, c], **d):
            return None
        j = js[0]
        used.append(j)
        mon.check(lk.inside(v[:, c], lo[:, j], hi[:, j]).all(), rule+'_filtered', got=v[:, c], lo=lo[:, j], hi=hi[:, j], **d)
        mon.check(v[:, c].max() > -np.inf, 'filtered_has_no_zero', **d)
    gone = [j for j in range(n) if j not in used]
    mon.check(all(np.isneginf(lo[:, j]).all() for j in gone), 'only_zero_probability_is_filtered', gone=gone, lo=lo[:, gone] if gone else None, **d)
    return v


def w_task(mon):
    r = mon.rng
    import MTfit.inversion  # noqa: F401
    gc.collect()
    gc.freeze()     # the forward tasks collect garbage on every call
    for it in range(mon.n(900 if mon.flavour == "san" else 2000, 12000)):
        keys, model, e, loc, table, w = scene(r)
        n = int(r.choice([1, 1, 2, 3, 5, 6, 7, 30]))
        mt = gen_mt(r, n, model, e.obs)
        if r.random() < .5:
            mt = np.matrix(mt)
        m = matrices(mon, e.data, loc)
        d = dict(keys=keys, data=e.data, location=loc, weights=w, mt=mt)
        A = np.asarray(mt)
        mon.case([A, repr(e.data), repr(loc), repr(w)], sample=dict(keys=keys, observations=len(e.obs), location_samples=0 if loc is None else len(loc), weights=w, candidates=n))
        mon.event('location_weighted', int(bool(w)))
        mon.event('weights_mean_one_not_uniform', int(bool(w) and abs(np.mean(w)-1) < 1e-12 and np.ptp(w) > 0))
        marg = bool(r.random() < .75)
        lo, hi = expected(e.obs, table, w, A, marg)
        res, t = task(mon, mt, m, w, True, marg)
        v = judge(mon, res, A, lo, hi, True, 'joint_likelihood', marginalise=marg, **d)
        res2, t = task(mon, mt, m, w, False, marg)
        v2 = judge(mon, res2, A, lo, hi, False, 'joint_likelihood', marginalise=marg, **d)
        if v is None or v2 is None:
            continue
        # filtering removes the zero columns and nothing else
        keep = v.max(0) > -np.inf
        mon.check(v2.size == v[:, keep].size and (not v2.size or np.allclose(v2.reshape(v.shape[0], -1), v[:, keep], rtol=1e-12, atol=1e-12, equal_nan=True)),
                  'filtering_changes_no_value', full=v, filtered=v2, **d)
        if not marg:
            continue
        tol = dict(rtol=1e-9, atol=1e-9)
        width = np.where(np.isfinite(lo) & np.isfinite(hi), hi-lo, np.inf)

        def same(x, y, rule, **k):
            # ill-conditioned columns (a wide oracle interval) carry rounding of their own
            x, y = np.asarray(x).reshape(1, -1), np.asarray(y).reshape(1, -1)
            with np.errstate(all='ignore'):
                ok = (x == y) | (np.abs(x-y) <= 1e-9*(1+np.abs(y))+width) | (np.isneginf(x) != np.isneginf(y)) & np.isneginf(lo)
            mon.check(ok.all(), rule, n=x.size, got=x[~ok][:3], want=y[~ok][:3], **dict(d, **k))
        kind = it % 5
        if kind == 0 and n > 1:
            # batch mates do not matter
            cut = int(r.integers(1, n))
            parts = [values(task(mon, mt[:, s], m, w)[0])[0].flatten() for s in (slice(0, cut), slice(cut, None))]
            same(np.concatenate(parts), v, 'batch_independence', cut=cut)
            p = r.permutation(n)
            x = values(task(mon, mt[:, p], m, w)[0])[0].flatten()
            y = np.empty(n)
            y[p] = x
            same(y, v, 'batch_order_independence')
        elif kind == 1:
            # station order within the data
            data2 = {}
            for key in r.permutation(list(e.data)):
                q = e.data[key]
                p = r.permutation(len(q['Stations']['Name']))
                s = q['Stations']
                data2[str(key)] = {k: q[k][p] for k in q if k != 'Stations'}
                data2[str(key)]['Stations'] = {'Name': [s['Name'][i] for i in p], 'Azimuth': s['Azimuth'][p], 'TakeOffAngle': s['TakeOffAngle'][p]}
            same(values(task(mon, mt, matrices(mon, data2, loc), w)[0])[0].flatten(), v, 'station_order_independence', permuted=data2)
        elif kind == 2 and loc is not None and len(loc) > 1:
            p = r.permutation(len(loc))
            w2 = [w[i] for i in p] if w else w
            same(values(task(mon, mt, matrices(mon, e.data, [loc[i] for i in p]), w2)[0])[0].flatten(), v, 'location_order_independence')
        elif kind == 3 and loc is not None:
            # duplicated versus weighted
            rep = [int(x) for x in r.integers(1, 4, len(loc))]
            dup = [loc[i] for i in range(len(loc)) for _ in range(rep[i])]
            wl = w if w else [1.]*len(loc)
            wd = [wl[i] for i in range(len(loc)) for _ in range(rep[i])]
            ww = [wl[i]*rep[i] for i in range(len(loc))]
            x = values(task(mon, mt, matrices(mon, e.data, dup), wd)[0])[0].flatten()
            y = values(task(mon, mt, m, ww)[0])[0].flatten()
            same(x, y, 'duplicated_equals_weighted', repeats=rep)
        elif kind == 4 and (loc is None or len(loc) == 1):
            # one type at a time
            tot = np.zeros(n)
            for key in e.data:
                one = {key: e.data[key]}
                tot = tot+values(task(mon, mt, matrices(mon, one, loc), False)[0])[0].flatten()
            if w:
                tot = tot+np.log(w[0])
            same(tot, v, 'types_add')
        if it % 7 == 0:
            # a task that is reused gives the same answer twice
            x, t = task(mon, mt, m, w, True, True, True)
            x1 = values(x)[0].flatten()
            x2 = values(mon.call('forward_task', t))[0].flatten()
            same(x1, v, 'reused_task')
            same(x2, v, 'reused_task')


def write_scat(path, recs, weights):
    with open(path, 'w') as f:
        for q, w in zip(recs, weights):
            f.write('%r\n' % float(w))
            for i, nme in enumerate(q['Name']):
                f.write('%s\t%r\t%r\n' % (nme, float(q['Azimuth'][i, 0]), float(q['TakeOffAngle'][i, 0])))
            f.write('\n')


def store(mon, inv):
    """what the run collected: tensors and values"""
    out = inv.algorithm.pdf_sample
    v = np.asarray(out.ln_pdf._ln_pdf, dtype=float)
    k = v.shape[-1] if v.size else 0
    m = np.asarray(out.moment_tensors, dtype=float)[:, :k]
    return v.reshape(-1, k) if k else v, m, out.n


def w_frontend(mon):
    from MTfit.inversion import Inversion
    r = mon.rng
    cwd = os.getcwd()
    gc.collect()
    gc.freeze()
    for it in range(mon.n(120, 1000)):
        keys, model, e, loc, table, w = scene(r)
        other = []
        data = e.data
        obs = e.obs
        opts = {}
        if r.random() < .5:
            # further data types that are not selected
            allk = ev.POL+ev.RATIO+ev.PROB
            other = [str(k) for k in r.permutation(allk)[:2] if k not in keys]
            e2 = ev.make(r, other, net=e.net, nmax=5)
            data = dict(list(e.data.items())+list(e2.data.items()))
            opts['inversion_options'] = list(keys)
        data['UID'] = 'ev%d' % it
        tmp = tempfile.mkdtemp(prefix='vpm_c01_')
        try:
            os.chdir(tmp)
            if loc is not None:
                wl = w if w else [1.]*len(loc)
                write_scat(os.path.join(tmp, 'l.scatangle'), loc, wl)
                opts['location_pdf_file_path'] = os.path.join(tmp, 'l.scatangle')
                w = wl
            dc = bool(r.random() < .4)
            alg = 'iterate'
            N = int(r.choice([40, 300]))
            if mon.flavour != 'py' and r.random() < .4:
                opts['c_generate'] = True
            par = bool(it % 12 == 5)
            before = repr(sorted((o['key'], o['name']) for o in obs))
            d = dict(keys=keys, other=other, data=data, location=loc, weights=w, options=repr(opts), dc=dc, parallel=par)
            inv = mon.call('front_end', Inversion, copy.deepcopy(data), algorithm=alg, parallel=par, n=2 if par else 0, phy_mem=0.01, dc=dc, max_samples=N, convert=False, path=tmp,
                           number_samples=int(r.choice([7, 50])), **opts)
            mon.call('front_end', inv.forward)
            v, m, n = store(mon, inv)
            mon.case([repr(data), repr(loc), repr(w), repr(opts), dc], sample=dict(keys=keys, other=other, dc=dc, tried=n, stored=int(m.shape[1]), c_generate='c_generate' in opts))
            mon.event('front_end_samples', m.shape[1])
            mon.check(n >= N, 'front_end_tries_the_requested_samples', n=n, N=N, **d)
            if not m.shape[1]:
                mon.event('front_end_empty')
                continue
            mon.check(np.abs(np.sqrt((m*m).sum(0))-1).max() < 1e-8, 'front_end_unit_tensors', **d)
            lo, hi = expected(obs, table, w, m)
            v = v.reshape(lo.shape) if v.size == lo.size else v
            if mon.check(v.shape == lo.shape, 'front_end_shape', got=v.shape, want=lo.shape, **d):
                ok = lk.inside(v, lo, hi) & ~np.isneginf(v)
                mon.event('front_end_resolved', int((np.isfinite(lo) & (hi-lo < 1e-3)).sum()))
                mon.check(ok.all(), 'front_end_joint_likelihood', n=v.size, got=v[~ok][:3], lo=lo[~ok][:3], hi=hi[~ok][:3], mt=m[:, (~ok).any(0)][:, :2], **d)
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)


W = {
    'task': dict(fn=w_task, flavours=['py', 'c', 'san'], shards={'quick': 2, 'thorough': 4}, need={'joint_likelihood': 1000, 'resolved_values': 1000, 'location_weighted': 100,
                 'weights_mean_one_not_uniform': 30, 'station_order_independence': 50, 'duplicated_equals_weighted': 50, 'types_add': 50, 'batch_independence': 50}),
    'frontend': dict(fn=w_frontend, flavours=['py', 'c'], shards={'quick': 2, 'thorough': 4}, need={'front_end_joint_likelihood': 300, 'front_end_resolved': 300}),
}
if __name__ == '__main__':
    harness.main('C01', __file__, W, rule='an observation is one (data, locations, weights, batch of candidates) evaluated by a forward task, or one front-end run; distinct by content',
                 assumptions=['manual polarities and polarity probabilities are alternatives (not combined in one event)', 'location records list at least the stations of the data'])
