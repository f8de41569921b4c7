"""C18: reading and binning location samples keeps every record and all the weight.

Scatter files are written from generated samples.  What is read is compared with them block by block.  For binning the
weights are powers of two (or random), so the weight of every bin tells which samples were merged into it; each of them
is compared with the record that was kept."""
import contextlib
import gc
import io
import os
import sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vpm import harness


def scratch(name):
    return os.path.join(os.environ.get('VPM_WORK') or os.environ['TMPDIR'], name)


@contextlib.contextmanager
def silent():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o


def names(r, n):
    out = []
    while len(out) < n:
        k = r.integers(4)
        x = 'S%04d' % r.integers(10000) if k < 2 else str(r.integers(1, 999)) if k == 2 else 'X.%s_%d' % ('ABC'[r.integers(3)], r.integers(99))
        if x not in out:
            out.append(x)
    return out


def text(r, x):
    """a number as text that reads back as the same number"""
    k = r.integers(3)
    if k == 0 and float('%.1f' % x) == x:
        return '%.1f' % x
    if k == 1 and x == int(x) and abs(x) < 1e15:
        return '%d' % x
    return repr(float(x))


def draw(r, nmax=200):
    """samples [(weight, [(name, az, toa)])], bin size and whether all differences are exact"""
    n = int([1, 2, r.integers(2, 12), r.integers(12, 48), r.integers(48, nmax+1)][r.integers(5)]) if nmax > 48 else int(r.integers(1, nmax+1))
    nsta = int([1, 2, r.integers(2, 8), r.integers(8, 31)][r.integers(4)])
    decodable = n <= 48
    exact = bool(r.random() < .4)
    size = float(r.choice([.25, .5, 1., 2., 5.])) if exact else float(r.choice([.1, .3, 1., 2.5, 10., 45., 10**r.uniform(-3, 2)]))
    st = names(r, nsta)
    k = int(r.integers(1, 7))
    caz, cto = r.uniform(0, 360, (k, nsta)), r.uniform(0, 180, (k, nsta))
    if r.random() < .3:
        # directions near north, where azimuths wrap
        caz = (r.uniform(-1, 1, (k, nsta))*size) % 360
    spread = size*r.choice([0., .1, .3, .5, 1.])
    style = r.integers(4)
    samples = []
    for i in range(n):
        c = r.integers(k)
        az = (caz[c]+r.uniform(-1, 1, nsta)*spread) % 360
        to = np.abs(cto[c]+r.uniform(-1, 1, nsta)*spread)
        if r.random() < .3:
            # all stations but one stay where they are
            j = r.integers(nsta)
            q = np.arange(nsta) != j
            az[q], to[q] = caz[c][q], cto[c][q]
        if exact:
            az, to = np.round(az*8/size)/8*size, np.round(to*8/size)/8*size
        elif r.random() < .5:
            az, to = np.round(az, 1), np.round(to, 1)
        samples.append([(st[j], float(az[j]), float(to[j])) for j in range(nsta)])
        if len(samples) > 1 and r.random() < .1:
            samples[-1] = list(samples[r.integers(len(samples)-1)])
        if exact and len(samples) > 1 and r.random() < .2:
            # half a bin away from another sample, at one station
            q = list(samples[r.integers(len(samples)-1)])
            j = r.integers(nsta)
            s = r.choice([-1, 1])*size/2
            q[j] = (q[j][0], q[j][1]+s, q[j][2]) if r.random() < .5 else (q[j][0], q[j][1], q[j][2]+s)
            samples[-1] = q
    if style == 1:
        # stations in another order in every sample
        samples = [[s[j] for j in r.permutation(len(s))] for s in samples]
    elif style == 2 and nsta > 1:
        # not every station in every sample
        samples = [[s[j] for j in sorted(r.permutation(len(s))[:r.integers(1, len(s)+1)])] if r.random() < .3 else s for s in samples]
    if decodable:
        w = 2.**r.permutation(n)*2.**r.integers(-20, 3)
    else:
        w = r.choice([1., 5., 10**r.uniform(-3, 6)])*(np.ones(n) if r.random() < .3 else r.random(n)+1e-9)
    if n > 48:
        # all different, so that a record is known by its weight
        w = w*(1+np.arange(n)*1e-9)
    return dict(samples=list(zip(map(float, w), samples)), bin=size, exact=exact, decodable=decodable, style=int(style), stations=nsta)


def write(r, d, f):
    nl = '\r\n' if r.random() < .35 else '\n'
    lines = []
    lead = int(r.integers(1, 3)) if r.random() < .1 else 0
    lines += ['']*lead
    gap = r.integers(3)
    for i, (w, s) in enumerate(d['samples']):
        if i:
            lines += [''] if gap == 0 else ['']*int(r.integers(1, 4)) if gap == 1 else [[' ', '\t', ''][r.integers(3)]]
        lines.append((' ' if r.random() < .1 else '')+text(r, w)+(' ' if r.random() < .1 else ''))
        sep = ['\t', '   ', ' ', ' \t '][r.integers(4)]
        for n, a, t in s:
            lines.append(n+sep+text(r, a)+sep+text(r, t)+(' ' if r.random() < .05 else ''))
    tail = int(r.integers(4))
    with open(f, 'w', newline='') as o:
        o.write(nl.join(lines)+['', nl, nl+nl, nl+nl+nl][tail])
    return dict(crlf=nl != '\n', tail=tail, lead=lead, gap=int(gap), n=None)


def facts(d, style):
    x = dict(style)
    x.pop('n')
    x.update(samples=len(d['samples']), stations=d['stations'], bin=d['bin'], exact=d['exact'], order=['same', 'permuted', 'missing', 'same'][d['style']])
    return x


def plain(rec):
    a, t = np.asarray(rec['Azimuth'], float).flatten(), np.asarray(rec['TakeOffAngle'], float).flatten()
    return [(str(n), float(x), float(y)) for n, x, y in zip(rec['Name'], a, t)] if len(rec['Name']) == len(a) == len(t) else None


def same(mon, recs, weights, d, where, det):
    """one record per block, in the order of the file"""
    if not mon.check(len(recs) == len(weights) == len(d['samples']), where+'_gives_every_block', got=(len(recs), len(weights)), want=len(d['samples']), **det):
        return
    for i, (rec, w, (w0, s)) in enumerate(zip(recs, weights, d['samples'])):
        p = plain(rec)
        mon.check(p == s, where+'_gives_the_stations_and_angles', n=len(s), got=p, want=s, block=i, **det)
        mon.check(float(w) == w0, where+'_gives_the_weight', got=w, want=w0, block=i, **det)
    mon.event('blocks', len(recs))


def parsing(mon):
    from MTfit.extensions.scatangle import parse_scatangle, bin_scatangle, location_pdf_parser
    from MTfit.utilities.file_io import read_scatangle_output
    r = mon.rng
    for i in range(mon.n(350, 6000)):
        d = draw(r)
        f = scratch('p%d_%d.scatangle' % (mon.shard, i))
        det = facts(d, write(r, d, f))
        recs, w = mon.call('file_parses', parse_scatangle, f)
        same(mon, recs, w, d, 'parsing', det)
        # as the inversion and the plots read it
        recs, w = mon.call('file_parses', location_pdf_parser, f)
        same(mon, recs, w, d, 'location_parser', det)
        x = mon.call('file_parses', read_scatangle_output, f)
        same(mon, [dict(Name=q['names'], Azimuth=q['azimuth'], TakeOffAngle=q['takeoff_angle']) for q in x['distribution']], x['probability'], d, 'plot_reader', det)
        # written out and read again (with a zero bin nothing is merged)
        old, new = mon.call('command_writes', bin_scatangle, f, 0, 0)
        if mon.check(old == f and new != f and os.path.exists(new), 'command_writes_a_file', got=(old, new), **det):
            recs, w = mon.call('written_file_parses', parse_scatangle, new)
            same(mon, recs, w, d, 'round_trip', det)
            os.remove(new)
        # sub-sampling
        n = len(d['samples'])
        k = int([1, n, n+1, n+50, r.integers(1, n+1)][r.integers(5)])
        recs, w = mon.call('file_parses', parse_scatangle, f, k)
        if k >= n:
            same(mon, recs, w, d, 'large_sub_sample', det)
        else:
            table = {a: s for a, s in d['samples']}
            mon.check(len(recs) == len(w) == k, 'sub_sample_has_its_size', got=(len(recs), len(w)), want=k, **det)
            mon.check(len(set(map(float, w))) == k and all(plain(x) == table.get(float(y)) for x, y in zip(recs, w)), 'sub_sample_has_different_blocks_with_their_weights', n=k, **det)
            mon.event('sub_samples')
        os.remove(f)
        mon.event('crlf' if det['crlf'] else 'unix')
        mon.event('tail_%d' % det['tail'])
        mon.case(('parse', n, d['stations'], float(d['samples'][0][0]), d['samples'][0][1][0][1]), sample=det)


def differences(a, b):
    """largest plain and circular difference of station angles, or None when the stations differ"""
    x, y = sorted(a), sorted(b)
    if [q[0] for q in x] != [q[0] for q in y]:
        return None
    az = np.abs(np.array([q[1] for q in x])-np.array([q[1] for q in y]))
    to = np.abs(np.array([q[2] for q in x])-np.array([q[2] for q in y]))
    return max(az.max(), to.max()), max(np.minimum(az, np.abs(360-az)).max(), to.max())


def binned(mon, recs, weights, d, size, k, where, det):
    """size: bin size used, k: sub-sample size or 0"""
    samples = d['samples']
    n = len(samples)
    total = sum(w for w, _ in samples)
    tol = 0. if d['exact'] else 1e-9*size
    want = n if not k or k >= n else k
    mon.check(len(recs) == len(weights), where+'_gives_a_weight_per_record', got=(len(recs), len(weights)), **det)
    if not k or k >= n:
        mon.check(abs(sum(map(float, weights))-total) <= (0 if d['decodable'] else 1e-9*total), where+'_keeps_the_total_weight', got=float(sum(map(float, weights))), want=total, **det)
    where_is = {}
    for j, (w, s) in enumerate(samples):
        where_is.setdefault(tuple(s), []).append(j)
    kept = [plain(x) for x in recs]
    if not mon.check(all(x is not None and tuple(x) in where_is for x in kept), where+'_keeps_original_records', n=max(len(kept), 1), **det):
        return
    if d['decodable']:
        unit = min(w for w, _ in samples)
        bit = {int(round(np.log2(w/unit))): j for j, (w, _) in enumerate(samples)}
        seen = []
        for x, w in zip(kept, weights):
            q = float(w)/unit
            ok = q == int(q) and 0 < q < 2**n
            if not mon.check(ok, where+'_weights_are_sums_of_sample_weights', weight=float(w), **det):
                return
            members = [bit[b] for b in range(n) if (int(q) >> b) & 1]
            seen += members
            mon.check(bool(set(members) & set(where_is[tuple(x)])), where+'_record_is_in_its_own_bin', members=members, **det)
            for m in members:
                dd = differences(samples[m][1], x)
                same_one = tuple(samples[m][1]) == tuple(x)
                mon.check(same_one or (dd is not None and dd[1] < size/2+tol), where+'_merges_only_samples_within_half_a_bin', difference=dd, kept=x, merged=samples[m][1], **det)
            mon.event('merged', len(members)-1)
        mon.check(len(seen) == len(set(seen)) == want, where+'_puts_every_sample_in_one_bin', n=n, got=len(set(seen)), want=want, **det)
    elif size == 0:
        mon.check(len(kept) == want, where+'_merges_nothing', got=len(kept), want=want, **det)
    # one record per bin
    for a in range(len(kept)):
        for b in range(a+1, min(len(kept), a+60)):
            dd = differences(kept[a], kept[b])
            mon.check(dd is None or size == 0 or not dd[0] < size/2-tol, where+'_keeps_one_record_of_a_bin', difference=dd, **det)
    mon.event('bins', len(kept))


def binning(mon):
    from MTfit.extensions.scatangle import parse_scatangle, bin_scatangle, bin_scatangle_files, pre_inversion
    from MTfit.extensions import scatangle
    r = mon.rng
    gc.collect()
    gc.freeze()
    mon.check(bool(scatangle.cscatangle) == (mon.flavour != 'py'), 'compiled_binning_is_there')
    for i in range(mon.n(500, 9000)):
        d = draw(r)
        f = scratch('b%d_%d.scatangle' % (mon.shard, i))
        det = facts(d, write(r, d, f))
        n = len(d['samples'])
        kind = r.integers(6)
        k = 0
        size = d['bin']
        if kind == 0:
            size = 0
        elif kind == 1:
            size = 720.
        elif kind == 2:
            k = int(r.integers(1, n+3))
        det['size'], det['k'] = size, k
        recs, w = mon.call('binning_answers', parse_scatangle, f, k, size)
        binned(mon, recs, w, d, size, k, 'binning', det)
        if i % 2 == 0:
            old, new = mon.call('command_writes', bin_scatangle, f, k, size)
            if mon.check(old == f and os.path.exists(new), 'command_writes_a_file', **det):
                recs, w = mon.call('written_file_parses', parse_scatangle, new)
                binned(mon, recs, w, d, size, k, 'command', det)
                if new != f:
                    os.remove(new)
        if size and i % 8 == 1:
            with silent():
                out = mon.call('command_writes', pre_inversion, bin_scatangle=True, location_pdf_file_path=[f], bin_scatangle_size=size, number_location_samples=k, parallel=bool(r.random() < .5))
            g = out['location_pdf_file_path']
            if mon.check(len(g) == 1 and g[0] != f and os.path.exists(g[0]), 'inversion_uses_the_binned_file', got=g, **det):
                recs, w = mon.call('written_file_parses', parse_scatangle, g[0])
                binned(mon, recs, w, d, size, k, 'pre_inversion', det)
                os.remove(g[0])
        os.remove(f)
        mon.event('order_'+det['order'])
        mon.event('wide' if kind == 1 else 'zero' if kind == 0 else 'sub_sampled' if kind == 2 else 'ordinary')
        mon.case(('bin', n, d['stations'], size, k, d['samples'][0][0], d['samples'][0][1][0][1]), sample=det)
    # many files, with and without a pool
    for i in range(mon.n(2, 20)):
        fs, ds = [], []
        for j in range(int(r.integers(2, 6))):
            d = draw(r, 40)
            f = scratch('m%d_%d_%d.scatangle' % (mon.shard, i, j))
            write(r, d, f)
            fs.append(f)
            ds.append(d)
        size = float(r.choice([.5, 2., 10.]))
        parallel = bool(i % 2 == 0)
        with silent():
            out = mon.call('command_writes', bin_scatangle_files, fs, 0, size, parallel)
        det = dict(files=len(fs), size=size, parallel=parallel)
        if mon.check(len(out) == len(fs) and all(os.path.exists(x) for x in out) and not set(out) & set(fs), 'every_file_is_binned', got=out, **det):
            for f, g, d in zip(fs, out, ds):
                recs, w = mon.call('written_file_parses', parse_scatangle, g)
                d = dict(d, exact=False)
                binned(mon, recs, w, d, size, 0, 'many_files', det)
                os.remove(g)
        for f in fs:
            os.remove(f)
        mon.event('file_lists')
        mon.case(('files', i, mon.shard, size), sample=det)


WORKLOADS = {
    'parsing': dict(fn=parsing, flavours=['py'], shards={'quick': 2, 'thorough': 6}, need={'blocks': 5000, 'sub_samples': 50, 'crlf': 30, 'unix': 30, 'tail_0': 20, 'tail_1': 20, 'tail_2': 20}, timeout={'quick': 300, 'thorough': 850}),
    'binning': dict(fn=binning, flavours=['py', 'c', 'san'], shards={'quick': 2, 'thorough': 5}, need={'merged': 500, 'bins': 2000, 'order_permuted': 30, 'order_missing': 30, 'zero': 20, 'sub_sampled': 20, 'file_lists': 1}, timeout={'quick': 400, 'thorough': 880}),
}

if __name__ == '__main__':
    harness.main('C18', __file__, WORKLOADS,
                 rule='one case = one scatter file with its bin and sub-sample sizes',
                 assumptions=['samples without the same stations are never within half a bin of each other',
                              'angles on both sides of north may be merged or not',
                              'two kept records within half a bin of each other are two records of one bin'])
