"""C09: the sample store keeps each non-zero sample once, aligned, and counts every try.

A shadow store (plain Python lists) is fed the same history of batches; after every prefix and at the
end what the real store outputs is compared column for column with the shadow."""
import os
import numpy as np
from vpm import harness


def lse0(a):
    a = np.atleast_2d(np.asarray(a, dtype=np.longdouble))
    with np.errstate(all='ignore'):
        m = a.max(0)
        mm = np.where(np.isfinite(m), m, 0)
        return (np.log(np.exp(a-mm).sum(0))+mm).astype(float)


class Shadow(object):
    def __init__(self, ev):
        self.ev, self.mt, self.lp, self.sf, self.n = ev, [], [], [], 0

    def add(self, mt, lp, n, sf):
        self.n += n
        m = lse0(lp) if mt.shape[1] else np.zeros(0)
        for j in range(mt.shape[1]):
            if m[j] > -np.inf:
                self.mt.append(mt[:, j].copy())
                self.lp.append(m[j])
                self.sf.append(None if sf is None else sf[j])


def batch(mon, k, ev, rows, ident):
    """k candidates, each carrying a unique identity in its components"""
    r = mon.rng
    mt = r.normal(size=(6*ev, k))
    mt[0] = ident[0]+np.arange(k)+1.
    ident[0] += k
    for e in range(ev):
        mt[6*e:6*e+6] /= np.sqrt((mt[6*e:6*e+6]**2).sum(0)) if k else 1.
    if k:
        mt[1] = mt[1]+0.   # keep contiguous copy
    lp = r.normal(size=(rows, k))*r.choice([1., 5., 20.])+r.choice([0., -900., 50.])
    z = r.integers(6)
    if z == 0:
        lp[:] = -np.inf
    elif z == 1:
        lp[:, r.random(k) < 0.5] = -np.inf
    elif z == 2:
        lp[r.random((rows, k)) < 0.5] = -np.inf
    elif z == 3 and k:
        lp[:, 0] = -np.inf
        lp[:, -1] = -np.inf
    return mt, lp


def as_mt(mon, mt, ev):
    if ev > 1 and mt.shape[1] and mon.rng.random() < 0.6:
        return [np.matrix(mt[6*e:6*e+6]) for e in range(ev)]
    return np.matrix(mt)


def as_lp(mon, lp):
    from MTfit.probability import LnPDF
    k = mon.rng.integers(3)
    if lp.shape == (1, 1) and k == 0:
        return float(lp[0, 0])
    return [lambda: np.matrix(lp), lambda: LnPDF(np.matrix(lp)), lambda: lp.copy()][k]()


def verify(mon, out, sh, normalise, N, discard, d, rule=''):
    want = np.array(sh.lp)
    if not len(want):
        p = np.asarray(out.get('probability', 'missing'))
        mon.check(p.size == 0 and p.dtype != object and p.dtype.kind not in 'US', 'empty_history_gives_explicit_empty_result', out=repr(out)[:300], **d)
        return
    if discard and N:
        cut = want.max()-np.log(float(discard)*N)
        keep = want > cut
        edge = np.abs(want-cut) < 1e-9*(1+abs(cut))
    else:
        keep = np.ones(len(want), bool)
        edge = ~keep
    if edge.any():
        mon.event('discard_edge_skipped')
        return
    mon.event('discarded_samples', int((~keep).sum()))
    mt = np.array(sh.mt).T[:, keep]
    if sh.ev > 1:
        g = [out.get('moment_tensor_space_%d' % (i+1)) for i in range(sh.ev)]
        if not mon.check(all(x is not None for x in g), 'tensors_reported', keys=list(out), **d):
            return
        got = np.concatenate([np.asarray(x) for x in g], 0)
    else:
        got = np.asarray(out['moment_tensor_space'])
    ok = mon.check(got.shape == mt.shape and (got == mt).all(), 'stored_tensors_are_the_nonzero_candidates_in_order', n=max(1, mt.shape[1]),
                   got_shape=got.shape, want_shape=mt.shape, first_diff=(np.argwhere(got != mt)[:3].tolist() if got.shape == mt.shape else None), **d)
    lp = np.asarray(out['ln_pdf']).flatten()
    mon.close(lp, want[keep], 'each_sample_keeps_its_own_ln_pdf', rtol=1e-12, atol=1e-10, **d)
    p = np.asarray(out['probability'], dtype=float).flatten()
    m = want.max()
    w = np.exp(want-m)
    if normalise:
        mon.close(p, (w/w.sum())[keep], 'probability_normalised_to_unit_total', rtol=1e-9, atol=1e-300, **d)
    else:
        with np.errstate(over='ignore'):
            mon.close(p, np.exp(want)[keep], 'unnormalised_probability', rtol=1e-9, atol=1e-300, **d)
    if sh.sf[0] is not None:
        s = out.get('scale_factors')
        if mon.check(s is not None and len(s) == keep.sum(), 'scale_factors_reported', got=repr(s)[:200], **d):
            ids = [x['id'] for x in s]
            mon.check(ids == [x['id'] for x, k in zip(sh.sf, keep) if k], 'each_sample_keeps_its_scale_factor', n=len(ids), **d)
    mon.check(out.get('dV') == 1, 'volume_element_reported', got=out.get('dV'), **d)


def w_store(mon):
    from MTfit.sampling import Sample
    r = mon.rng
    for it in range(mon.n(700, 8000)):
        ev = int(r.choice([1, 1, 2, 3]))
        rows = int(r.choice([1, 1, 1, 2, 4]))
        init = int(r.choice([1, 2, 3, 5, 10, 37]))
        S = Sample(initial_sample_size=init, number_events=ev)
        sh = Shadow(ev)
        use_sf = ev > 1 and rows == 1 and r.random() < 0.5
        ident = [0]
        hist = []
        nb = int(r.integers(1, 9))
        for b in range(nb):
            m = r.integers(5)
            filled = len(sh.lp)
            k = int({0: r.integers(0, 3*init+1), 1: max(0, init-filled % init), 2: init, 3: 0 if r.random() < .3 else 1, 4: 3*init}[int(m)])
            mt, lp = batch(mon, k, ev, rows, ident)
            if m == 1 and k:
                lp = np.where(np.isfinite(lp), lp, -1.)     # exactly fills the storage
                mon.event('exact_fill')
            if m == 3 and k == 0:
                mon.event('empty_batch')
            n = int(k+r.choice([0, 0, 3, 1000]))
            sf = [{'id': (b, j), 'mu': np.ones((ev, ev))*j, 'sigma': np.zeros((ev, ev))} for j in range(k)] if use_sf else None
            a = [as_mt(mon, mt, ev), as_lp(mon, lp), n]
            if use_sf:
                s = np.empty(k, dtype=object)
                for j in range(k):
                    s[j] = sf[j]
                a.append(s)
            mon.call('append_accepts', S.append, *a)
            sh.add(mt, lp, n, sf)
            hist.append((k, n, int(np.isfinite(lse0(lp)).sum()) if k else 0))
            mon.check(len(S) == sh.n, 'tried_count_is_sum_of_batches', got=len(S), want=sh.n, history=hist)
            mon.event('grown', int(len(sh.lp) > init))
            if r.random() < 0.15:
                d = dict(history=hist, init=init, events=ev, rows=rows, at='prefix')
                o, _ = mon.call('output_accepts', S.output)
                verify(mon, o, sh, True, 0, 0, d)
        mon.case(repr((hist, init, ev, rows))+repr(ident)+repr(it), sample=dict(history=hist, init=init, events=ev, rows=rows))
        mon.event('all_zero_history', int(not sh.lp))
        for normalise, N, discard in ((True, 0, 0), (False, 0, 0), (True, sh.n, 10000), (True, sh.n, float(r.choice([1e-3, 0.1, 1., 50.]))), (False, sh.n, float(r.choice([1e-2, 1., 1e6])))):
            N = max(N, 1) if discard else N
            o, txt = mon.call('output_accepts', S.output, normalise, False, N, discard)
            verify(mon, o, sh, normalise, N, discard, dict(history=hist, init=init, events=ev, rows=rows, N=N, discard=discard, normalise=normalise))


def w_convert(mon):
    """converted output stays aligned with its tensor, for one and several events"""
    from MTfit.sampling import Sample
    from MTfit.convert import output_convert
    r = mon.rng
    for it in range(mon.n(60, 500)):
        ev = int(r.choice([1, 2, 3]))
        S = Sample(initial_sample_size=int(r.choice([2, 7, 50])), number_events=ev)
        sh = Shadow(ev)
        ident = [0]
        for b in range(3):
            mt, lp = batch(mon, int(r.integers(1, 9)), ev, 1, ident)
            S.append(as_mt(mon, mt, ev), np.matrix(lp), lp.shape[1])
            sh.add(mt, lp, lp.shape[1], None)
        mon.case(repr((it, ev, ident, sh.lp)))
        o, _ = mon.call('output_accepts', S.output, True, True)
        d = dict(events=ev, stored=len(sh.lp))
        verify(mon, o, sh, True, 0, 0, d)
        if not sh.lp:
            continue
        for e in range(ev):
            mt = np.matrix(np.array(sh.mt).T[6*e:6*e+6])
            ref = output_convert(mt)
            for key in ref:
                k2 = key if ev == 1 else key+'_%d' % (e+1)
                if mon.check(k2 in o, 'converted_parameter_reported', key=k2, keys=list(o)[:40], **d):
                    mon.close(o[k2], np.asarray(ref[key], dtype=float), 'converted_parameters_aligned', rtol=1e-9, atol=1e-9, key=k2, **d)


def w_file(mon):
    """the on-disk store: same contract, including recovery from its file part-way through"""
    from MTfit.sampling import FileSample
    r = mon.rng
    wd = os.environ['VPM_WORK']
    for it in range(mon.n(10, 60)):
        ev = int(r.choice([1, 1, 2]))
        fn = os.path.join(wd, 'run%d' % it)
        S = FileSample(fname=fn, number_events=ev)
        sh = Shadow(ev)
        ident = [0]
        hist = []
        use_sf = ev > 1 and r.random() < 0.5
        for b in range(int(r.integers(1, 14 if it % 5 == 0 else 5))):
            k = int(r.choice([1, 2, 5]))
            mt, lp = batch(mon, k, ev, 1, ident)
            n = k+int(r.choice([0, 10]))
            a = [as_mt(mon, mt, ev), np.matrix(lp), n]
            sf = None
            if use_sf:
                sf = [{'id': b*100+j, 'mu': np.ones((ev, ev))*j} for j in range(k)]
                s = np.empty(k, dtype=object)
                for j in range(k):
                    s[j] = dict(sf[j])
                a.append(s)
            mon.call('append_accepts', S.append, *a)
            sh.add(mt, lp, n, sf)
            hist.append((k, n, int(np.isfinite(lp).sum())))
            mon.check(len(S) == sh.n, 'tried_count_is_sum_of_batches', got=len(S), want=sh.n, history=hist, store='file')
            if r.random() < 0.2:
                S = FileSample(fname=fn, number_events=ev)
                mon.event('recovered_from_file')
                mon.check(len(S) == sh.n, 'recovered_count', got=len(S), want=sh.n, history=hist)
        mon.case(repr((it, hist, ev)))
        o, _ = mon.call('output_accepts', S.output)
        verify(mon, o, sh, True, 0, 0, dict(history=hist, events=ev, store='file'))


def w_limit(mon):
    """sample-count-limited sampling stops at the first batch that reaches the limit"""
    from MTfit.algorithms.monte_carlo import IterationSample
    r = mon.rng
    for it in range(mon.n(60, 600)):
        ev = int(r.choice([1, 1, 2]))
        ns = int(r.choice([1, 5, 20, 100]))
        lim = int(r.choice([1, ns, ns*3, ns*3+1, ns*4-1, 57]))
        A = IterationSample(max_samples=lim, number_samples=ns, number_events=ev, dc=bool(r.random() < .3))
        task, end = mon.call('initialise_accepts', A.initialise)
        tried = 0
        sh = Shadow(ev)
        steps = 0
        extra = bool(r.random() < .4)
        allzero = bool(r.random() < .2)
        d = dict(number_samples=ns, max_samples=lim, events=ev)
        while not end and steps < 2000:
            steps += 1
            parts = [np.asarray(t) for t in task] if isinstance(task, list) else [np.asarray(task)]
            mon.check(len(parts) == ev and all(p.shape == (6, ns) for p in parts), 'task_has_requested_samples', got=[p.shape for p in parts], **d)
            lp = r.normal(size=(1, ns))
            lp[:, r.random(ns) < .5] = -np.inf
            if allzero:
                lp[:] = -np.inf
            n = ns+(int(r.integers(0, 5)) if extra else 0)
            res = {'moment_tensors': task, 'ln_pdf': np.matrix(lp), 'n': n}
            sh.add(np.concatenate(parts, 0), lp, n, None)
            tried += n
            task, end = mon.call('iterate_accepts', A.iterate, res)
            mon.check(bool(end) == (tried >= lim), 'stops_at_first_batch_reaching_limit', tried=tried, end=bool(end), **d)
            mon.check(A.total_number_samples == tried, 'algorithm_counts_tries', got=A.total_number_samples, tried=tried, **d)
        mon.case(repr((ns, lim, ev, extra, allzero, it)), sample=d)
        o, _ = mon.call('algorithm_output_accepts', A.output, True, False, 0)
        mon.check(o.get('total_number_samples') == tried, 'output_reports_tries', got=o.get('total_number_samples'), tried=tried, **d)
        verify(mon, o, sh, True, 0, 0, d)
        mon.event('all_zero_history', int(not sh.lp))


def w_default(mon):
    """the default store (100000 columns) filled exactly and past its end by algorithm-sized batches"""
    from MTfit.sampling import Sample
    r = mon.rng
    for case in range(mon.n(1, 3)):
        S = Sample()
        sh = Shadow(1)
        for b in range(11):
            k = 10000 if case != 1 else int(r.choice([33000, 50000, 100]))
            mt = r.normal(size=(6, k))
            lp = r.normal(size=(1, k))
            if case == 2:
                lp[:, r.random(k) < .3] = -np.inf
            S.append(np.matrix(mt), np.matrix(lp), k)
            sh.n += k
            f = np.isfinite(lp[0])
            sh.mt.extend(mt.T[f])
            sh.lp.extend(lp[0][f])
            sh.sf.extend([None]*int(f.sum()))
            mon.check(len(S) == sh.n, 'tried_count_is_sum_of_batches', got=len(S))
            if b in (8, 9, 10):
                o, _ = mon.call('output_accepts', S.output)
                verify(mon, o, sh, True, 0, 0, dict(case=case, batches=b+1))
        mon.case(repr(('default', case)))


W = {
    'store': dict(fn=w_store, shards={'quick': 1, 'thorough': 4}, need={'stored_tensors_are_the_nonzero_candidates_in_order': 500, 'exact_fill': 50, 'grown': 100, 'all_zero_history': 3,
                                                                       'empty_batch': 5, 'discarded_samples': 50, 'each_sample_keeps_its_scale_factor': 50}),
    'convert': dict(fn=w_convert, need={'converted_parameters_aligned': 100}),
    'file': dict(fn=w_file, flavours=['py', 'c'], need={'stored_tensors_are_the_nonzero_candidates_in_order': 3, 'recovered_from_file': 1}),
    'limit': dict(fn=w_limit, need={'stops_at_first_batch_reaching_limit': 100}),
    'default': dict(fn=w_default, need={'stored_tensors_are_the_nonzero_candidates_in_order': 3}),
}

if __name__ == '__main__':
    harness.main('C09', __file__, W, rule='an observation is one history of result batches (sizes, zero pattern, events, rows, storage increment); distinct by history',
                 assumptions=['every candidate carries a unique identity in its components, so loss, duplication and shift are distinguishable'])
