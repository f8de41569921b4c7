"""C17: parsing keeps what CSV and hypocentre files carry, and binary result files give back what was written.

Files are written from generated records; everything the parsers, the pickled inversion file, the inversion front end
and the binary reader give back is compared with those records, row for row and bit for bit."""
import contextlib
import copy
import io
import os
import pickle
import sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vpm import harness
from vpm import tensors as T

TYPES = ['PPolarity', 'SHPolarity', 'SVPolarity', 'PPolarityProbability', 'SHPolarityProbability', 'P/SHRMSAmplitudeRatio', 'P/SVRMSAmplitudeRatio',
         'SH/SVQAmplitudeRatio', 'P/SHAmplitudeRatio', 'PAmplitude', 'SHRMSAmplitude', 'SVQAmplitude', 'PRMSQAmplitudeRatio', 'S-PPolarity']
CONV = ['g', 'd', 'k', 'h', 's', 'u', 'v', 'S1', 'D1', 'R1', 'S2', 'D2', 'R2']


def scratch(name):
    return os.path.join(os.environ.get('VPM_WORK') or os.environ['TMPDIR'], name)


@contextlib.contextmanager
def silent():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o


def number(r, lo, hi):
    """the text of a number as a person would write it"""
    x = r.uniform(lo, hi)
    k = r.integers(7)
    return (str(int(x)) if k == 0 else '%.1f' % x if k == 1 else '%.3f' % x if k == 2 else repr(float(x)) if k == 3 else
            '%.6e' % x if k == 4 else '%+.2f' % x if k == 5 else '%g' % x)


def name(r, used, odd=True):
    while True:
        k = r.integers(8) if odd else 0
        n = ('S%04d' % r.integers(10000) if k < 3 else str(r.integers(1, 9999)) if k == 3 else 'UID%d' % r.integers(99) if k == 4 else
             'PPol%d' % r.integers(99) if k == 5 else 'X.%s-%d' % ('ABC'[r.integers(3)], r.integers(99)) if k == 6 else 'name_%d' % r.integers(99))
        if n not in used:
            used.add(n)
            return n


def uid(r):
    k = r.integers(8)
    return (str(r.integers(1, 7)) if k < 2 else '20150126222324%d' % r.integers(999) if k == 2 else 'event %d' % r.integers(99) if k == 3 else
            'UID%d' % r.integers(99) if k == 4 else 'myUIDofUID' if k == 5 else 'a:b=c%d' % r.integers(9) if k == 6 else 'Ev-%d' % r.integers(99))


def csv_events(r, nev=None, nsta=None):
    """records of a whole file: [(uid or None, [(type, [(name, az, toa, measured, error)])])], numbers as text"""
    out = []
    for i in range(nev or r.integers(1, 6)):
        types = []
        for key in r.permutation(TYPES)[:r.integers(1, 5)]:
            nm = 2 if 'Ratio' in key or 'Probability' in key else 1
            if r.random() < .15:
                nm = 3-nm
            ne = nm if r.random() < .7 else 3-nm
            n = nsta or (1 if r.random() < .2 else int(r.integers(1, 21)))
            used = set()
            rows = []
            for j in range(n):
                m = [str(r.choice(['1', '-1'])) if key.endswith('Polarity') and r.random() < .8 else number(r, -5, 5) for _ in range(nm)]
                rows.append((name(r, used), number(r, 0, 360), number(r, 0, 180), m, [number(r, 1e-3, .9) for _ in range(ne)]))
            if n > 2 and r.random() < .1:
                rows[1] = rows[0]
            types.append((str(key), rows))
        out.append((uid(r) if r.random() < .6 else None, types))
    if len(out) < 5 and r.random() < .15:
        # the same event twice
        out.insert(int(r.integers(len(out)+1)), copy.deepcopy(out[r.integers(len(out))]))
    return out


def csv_text(r, events):
    """the file that holds the records, with its style"""
    nl = '\r\n' if r.random() < .25 else '\n'
    width = int(r.integers(5, 8)) if r.random() < .3 else 5
    commas = r.random() < .7
    fill = (lambda s, w: s+','*(w-1)) if commas else (lambda s, w: s)
    lines = []

    def gap():
        k = r.integers(3)
        lines.append(','*(width-1) if k == 0 else '' if k == 1 else ' '*int(r.integers(1, 4)))
        return k
    gaps = set()
    for _ in range(r.integers(1, 3) if r.random() < .1 else 0):
        gap()
    per_file = r.permutation(5)
    style = r.integers(3)
    for i, (u, types) in enumerate(events):
        if i:
            for _ in range(1 if r.random() < .8 else r.integers(2, 4)):
                gaps.add(int(gap()))
        if u is not None:
            sep = ['=', ':', ' = ', ': ', '= '][r.integers(5)] if not u[0] in ':=' else '='
            lines.append(fill('UID'+sep+u, width))
        for key, rows in types:
            lines.append(fill(key+(' ' if r.random() < .1 else ''), width))
            order = np.arange(5) if style == 0 else per_file if style == 1 else r.permutation(5)
            # positions of the five columns among all columns
            cols = np.sort(r.permutation(width)[:5])
            head = ['Extra%d' % c for c in range(width)]
            for c, q in zip(cols, order):
                head[c] = ['Name', 'Azimuth', 'TakeOffAngle', 'Measured', 'Error'][q]
            lines.append(','.join(head))
            for row in rows:
                pad = ' ' if r.random() < .1 else ''
                sp = '  ' if r.random() < .1 else ' '
                cells = [row[0], pad+row[1], pad+row[2], pad+sp.join(row[3]), sp.join(row[4])+pad]
                line = ['x%d' % r.integers(9) if r.random() < .5 else '' for c in range(width)]
                for c, q in zip(cols, order):
                    line[c] = cells[q]
                lines.append(','.join(line))
    text = nl.join(lines)
    tail = r.integers(4)
    text += '' if tail == 0 else nl if tail == 1 else nl+nl if tail == 2 else nl+','*(width-1)+nl
    det = dict(crlf=nl != '\n', width=width, commas=commas, style=int(style), tail=int(tail), gaps=sorted(gaps), shape=[(u is not None, [len(x) for _, x in t]) for u, t in events])
    return text, det


def flat(x, n):
    return np.asarray(x, float).reshape(n, -1)


def same_csv(mon, got, events, where, det):
    """got is what was written in the file"""
    if not mon.check(isinstance(got, list) and len(got) == len(events), where+'_gives_every_event', got=len(got) if hasattr(got, '__len__') else repr(got), want=len(events), **det):
        return
    for i, ((u, types), e) in enumerate(zip(events, got)):
        mon.check(str(e.get('UID')) == (u if u is not None else str(i+1)), where+'_gives_the_uid', got=e.get('UID'), want=u if u is not None else str(i+1), **det)
        keys = {k for k, v in e.items() if isinstance(v, dict) and 'Measured' in v}
        mon.check(keys == {k for k, _ in types}, where+'_gives_every_data_type', got=sorted(keys), want=sorted(k for k, _ in types), **det)
        for key, rows in types:
            if key not in e:
                continue
            n = len(rows)
            o = e[key]
            names = [str(x) for x in o['Stations']['Name']]
            mon.check(names == [x[0] for x in rows], where+'_gives_the_stations', got=names, want=[x[0] for x in rows], key=key, **det)
            for field, want in (('Azimuth', [[float(x[1])] for x in rows]), ('TakeOffAngle', [[float(x[2])] for x in rows])):
                a = np.asarray(o['Stations'][field], float)
                mon.check(a.size == n and bool(np.all(flat(a, n) == want)), where+'_gives_the_'+field.lower(), n=n, got=a, want=want, key=key, **det)
            for field, q in (('Measured', 3), ('Error', 4)):
                a = np.asarray(o[field], float)
                want = np.array([[float(y) for y in x[q]] for x in rows])
                mon.check(a.shape == want.shape and bool(np.all(a == want)), where+'_gives_the_'+field.lower(), n=n, got=a, want=want, key=key, **det)
    mon.event('rows', sum(len(x) for _, t in events for _, x in t))


def csv(mon):
    from MTfit.utilities.file_io import parse_csv, csv2inv
    from MTfit.inversion import Inversion
    r = mon.rng
    for i in range(mon.n(700, 12000)):
        events = csv_events(r)
        text, det = csv_text(r, events)
        f = scratch('e%d_%d.csv' % (mon.shard, i))
        with open(f, 'w', newline='') as o:
            o.write(text)
        got = mon.call('csv_parses', parse_csv, f)
        same_csv(mon, got, events, 'parse_csv', det)
        again = mon.call('csv_parses', parse_csv, f)
        mon.check(repr(again) == repr(got), 'parsing_again_gives_the_same', **det)
        with silent():
            mon.call('csv2inv_runs', csv2inv, f)
        inv = os.path.splitext(f)[0]+'.inv'
        if mon.check(os.path.exists(inv), 'csv2inv_writes_a_file', **det):
            with open(inv, 'rb') as o:
                same_csv(mon, mon.call('inv_loads', pickle.load, o), events, 'inversion_file', det)
            if i % 10 == 0:
                for g, where in ((f, 'inversion_of_csv'), (inv, 'inversion_of_inv')):
                    with silent():
                        x = mon.call('inversion_reads_the_file', Inversion, data_file=g, parallel=False, inversion_options=['PPolarity'], algorithm='iterate', path=os.path.dirname(f))
                    same_csv(mon, x.data, events, where, det)
            os.remove(inv)
        os.remove(f)
        mon.event('csv_files')
        for k in det['gaps']:
            mon.event('gap_kind_%d' % k)
        mon.case(('csv', text), sample=det)


# hypocentre files

FM = {'u': 1, 'c': 1, '+': 1, 'd': -1, '-': -1, '?': 0, '.': 0}
HEADER = 'PHASE ID Ins Cmp On Pha  FM Date     HrMn   Sec     Err  ErrMag    Coda      Amp       Per  >   TTpred    Res       Weight    StaLoc(X  Y         Z)        SDist    SAzim  RAz  RDip RQual    Tcorr '
PRIOR = 'PHASE ID Ins Cmp On Pha  FM Date     HrMn   Sec     Err  ErrMag    Coda      Amp       Per       PriorWt  >   TTpred    Res       Weight    StaLoc(X  Y         Z)        SDist    SAzim  RAz  RDip RQual    Tcorr '


def hyp_events(r):
    out = []
    for i in range(1 if r.random() < .4 else r.integers(2, 6)):
        used = set()
        stations = [name(r, used, odd=False) for _ in range(r.integers(1, 21))]
        picks = []
        phases = [['P'], ['P', 'S'], ['P', 'SH', 'SV'], ['P', 'Pn', 'Pg', 'S']][r.integers(4)]
        for s in stations:
            for p in phases:
                if r.random() < .8:
                    k = r.random()
                    if p[0] == 'S' and k < .4:
                        fm = 'PpNn'[r.integers(4)]
                        pol = 1 if fm in 'Pp' else -1
                    elif k > .95:
                        fm, pol = 'Z', 0
                    else:
                        fm = list(FM)[r.integers(len(FM))]
                        pol = FM[fm]
                        fm = fm.upper() if r.random() < .5 else fm
                    picks.append((s, p, fm, pol, '%.2g' % 10**r.uniform(-2.5, 0), '%.1f' % r.uniform(0, 360), '%.1f' % r.uniform(0, 180)))
        out.append(picks)
    return out


def hyp_text(r, events):
    nl = '\r\n' if r.random() < .2 else '\n'
    prior = r.random() < .4
    tt = r.random() < .3
    lines = []
    for i, picks in enumerate(events):
        lines.append('NLLOC "/loc/obs.20150126.%06d.grid0" "LOCATED" "Location completed."' % r.integers(10**6))
        lines.append('SIGNATURE "   NLLoc:v6.00.0 03Feb2015 15h57m15"')
        lines.append('COMMENT "Location run"')
        lines.append('GRID  100 100 100  -5 -5 -0  0.1 0.1 0.1 PROB_DENSITY')
        lines.append('HYPOCENTER  x 0.0312109 y 0.0234766 z 3.32031  OT 24.2751  ix -1 iy -1 iz -1')
        lines.append('GEOGRAPHIC  OT 2015 01 26  22 %d   %.4f  Lat 0.0399196 Long 0.0397218 Depth 3.32031' % (r.integers(10, 60), r.uniform(0, 60)))
        lines.append('QUALITY  Pmax 2.85006e+141 MFmin 82.0143 MFmax 86.6127 RMS 0.00958958 Nphs %d Gap 36.756 Dist 0.264995 Mamp  -9.9 0 Mdur  -9.9 0' % len(picks))
        lines.append('VPVSRATIO  VpVsRatio 1.80732  Npair 15  Diff 0.4647')
        lines.append('STATISTICS  ExpectX 0.0290815 Y 0.0222124 Z 3.356  CovXX 0.0084406 XY 0.000322566 XZ -0.00225914 YY 0.0102132 YZ -0.00403783 ZZ 0.046807 '
                     'EllAz1  93.2974 Dip1  3.00778 Len1  0.171202 Az2  182.96 Dip2  -6.39314 Len2  0.185775 Len3  4.089675e-01')
        lines.append('TRANSFORM  LAMBERT RefEllipsoid Clarke-1880  LatOrig 0.039707  LongOrig 0.039441  FirstStdParal 0.003533  SecondStdParal 0.075882  RotCW 0.000000')
        if r.random() < .7:
            lines.append('FOCALMECH  Hyp  0.0399196 0.0397218 3.32031 Mech  0 0 0 mf  0 nObs 0')
        lines.append(PRIOR if prior else HEADER)
        for s, p, fm, pol, err, az, dip in picks:
            lines.append('%-6s ?    ?    ? %-6s %s 20150126 2223 %9.2f GAU %9s        -1        %s        -1 %s>  %8.4f %9.4f %9.4f %9.4f %9.4f %9.4f %9.4f %6.2f %5s %5s  9     0.0000 %s' %
                         (s, p, fm, r.uniform(0, 60), err, '-1' if r.random() < .5 else '%.2e' % r.uniform(0, 9), '%.4f ' % r.random() if prior else '', *r.uniform(-9, 9, 7), r.uniform(0, 360), az, dip, '0.01' if tt else ''))
        lines.append('END_PHASE')
        if r.random() < .2:
            lines.append('SCATTER Nsamples 0')
            lines.append('END_SCATTER')
        if i < len(events)-1 or r.random() < .9:
            lines.append('END_NLLOC')
        lines += ['']*int(r.integers(3))
    return nl.join(lines)+(nl if r.random() < .8 else ''), dict(crlf=nl != '\n', prior=prior, tterr=tt, picks=[len(x) for x in events])


def same_hyp(mon, got, events, where, det):
    want = []
    for picks in events:
        e = {}
        for s, p, fm, pol, err, az, dip in picks:
            if pol:
                e.setdefault(p+'Polarity', []).append((s, pol, 3*float(err), float(az), float(dip)))
        want.append(e)
    have = [{k: v for k, v in e.items() if isinstance(v, dict) and 'Measured' in v} for e in got]
    have = [e for e in have if e]
    want = [e for e in want if e]
    if not mon.check(len(have) == len(want), where+'_gives_every_event', got=len(have), want=len(want), **det):
        return
    for e, w in zip(have, want):
        mon.check(set(e) == set(w), where+'_gives_every_phase', got=sorted(e), want=sorted(w), **det)
        for k in set(e) & set(w):
            n = len(w[k])
            mon.check(list(e[k]['Stations']['Name']) == [x[0] for x in w[k]], where+'_gives_the_stations', got=list(e[k]['Stations']['Name']), want=[x[0] for x in w[k]], key=k, **det)
            for q, g, rule in ((1, e[k]['Measured'], '_gives_the_polarities'), (3, e[k]['Stations']['Azimuth'], '_gives_the_azimuths'), (4, e[k]['Stations']['TakeOffAngle'], '_gives_the_take_off_angles')):
                g = np.asarray(g, float)
                mon.check(g.size == n and bool(np.all(g.flatten() == [x[q] for x in w[k]])), where+rule, n=n, got=g, want=[x[q] for x in w[k]], key=k, **det)
            g = np.asarray(e[k]['Error'], float)
            mon.check(g.size == n and np.allclose(g.flatten(), [x[2] for x in w[k]], 1e-12, 0), where+'_gives_the_errors', n=n, got=g, want=[x[2] for x in w[k]], key=k, **det)
            mon.event('picks', n)


def hyp(mon):
    from MTfit.utilities.file_io import parse_hyp, hyp_output_dicts, hyp_output
    from MTfit.inversion import Inversion
    r = mon.rng
    for i in range(mon.n(500, 8000)):
        events = hyp_events(r)
        text, det = hyp_text(r, events)
        f = scratch('h%d_%d.hyp' % (mon.shard, i))
        with open(f, 'w', newline='') as o:
            o.write(text)
        got = mon.call('hyp_parses', parse_hyp, f)
        same_hyp(mon, got, events, 'parse_hyp', det)
        if i % 10 == 0:
            with silent():
                x = mon.call('inversion_reads_the_file', Inversion, data_file=f, parallel=False, inversion_options=['PPolarity'], algorithm='iterate', path=os.path.dirname(f))
            same_hyp(mon, x.data, events, 'inversion_of_hyp', det)
        if i % 3 == 0:
            # the text that goes with results keeps the picks of the file
            texts = []
            rec = record(r, int(r.integers(1, 9)))
            for e in got:
                with silent():
                    a = mon.call('hyp_results_are_made', hyp_output_dicts, copy.deepcopy(e), False, copy.deepcopy(rec))
                texts.append(a[0])
            g = scratch('o%d_%d.hyp' % (mon.shard, i))
            with silent():
                mon.call('hyp_results_are_written', hyp_output, ['\n'.join(texts)], fid=g)
            same_hyp(mon, mon.call('hyp_parses', parse_hyp, g), events, 'hyp_of_results', det)
            os.remove(g)
        os.remove(f)
        mon.event('hyp_files')
        mon.event('hyp_with_prior_weights' if det['prior'] else 'hyp_without_prior_weights')
        mon.case(('hyp', text), sample=det)


# binary records

def values(r, shape, wild):
    x = r.normal(size=shape)
    if wild:
        x = x*10.**r.uniform(-30, 30, shape)
    return x


def record(r, n, converted=None, end='', wild=False):
    """a result dictionary with arbitrary contents, so that each value can only come from its own place"""
    out = {}
    out['moment_tensor_space'+end] = np.matrix(values(r, (6, n), True) if wild else np.array([T.unit6(r)[0] for _ in range(n)]).T if n else np.zeros((6, 0)))
    p, l = r.random(n)*10.**r.uniform(-200, 5, n), r.uniform(-700, 50, n)
    if n and r.random() < .3:
        p[r.random(n) < .3] = 0.
    if n and r.random() < .3:
        l[r.random(n) < .2] = -np.inf
    form = r.integers(3)
    shape = (lambda x: np.matrix(x)) if form == 0 else (lambda x: x) if form == 1 else (lambda x: x.reshape(1, -1))
    out['probability'] = shape(p)
    out['ln_pdf'] = shape(l)
    out['total_number_samples'] = int(n+r.integers(10**int(r.integers(1, 12))))
    if r.random() < .8:
        out['dkl'] = float(r.normal())
    if r.random() < .8:
        out['ln_bayesian_evidence'] = float(r.normal()*100)
    if converted is None:
        converted = r.random() < .5
    if converted:
        for k in CONV:
            out[k+end] = r.normal(size=n)*10.**r.uniform(-3, 3)
    return out


def same_record(mon, got, want, where, det, end=''):
    n = want['moment_tensor_space'+end].shape[1]
    converted = 'g'+end in want
    m = np.asarray(got['moment_tensor_space'])
    w = np.asarray(want['moment_tensor_space'+end])
    mon.check(m.shape == w.shape and np.allclose(m, w, 4e-16, 0), where+'_gives_the_tensors', n=max(n, 1), got=m, want=w, **det)
    for k in ('probability', 'ln_pdf'):
        a, b = np.asarray(got[k], float).flatten(), np.asarray(want[k], float).flatten()
        mon.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), where+'_gives_the_'+k, n=max(n, 1), got=a, want=b, **det)
    mon.check(got['total_number_samples'] == want['total_number_samples'], where+'_gives_the_sample_count', got=got['total_number_samples'], want=want['total_number_samples'], **det)
    mon.check(('g' in got) == converted, where+'_says_whether_it_is_converted', got=sorted(got), **det)
    if converted:
        for k in CONV:
            a, b = np.asarray(got.get(k, []), float).flatten(), np.asarray(want[k+end], float).flatten()
            mon.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), where+'_gives_the_converted_parameters', n=max(n, 1), key=k, got=a, want=b, **det)
    for k in ('dkl', 'ln_bayesian_evidence'):
        if k in got and k in want:
            mon.check(got[k] == want[k] or (np.isnan(got[k]) and np.isnan(want[k])), where+'_gives_the_'+k, got=got[k], want=want[k], **det)
    mon.event('samples_read', n)


def size(r):
    return int([0, 1, 2, 3, r.integers(4, 40), r.integers(40, 400)][r.integers(6)])


STATION = {'UID': 'E', 'PPolarity': {'Stations': {'Name': ['S1', 'S2'], 'Azimuth': np.matrix([[10.], [200.]]), 'TakeOffAngle': np.matrix([[30.], [70.]])},
                                     'Measured': np.matrix([[1], [-1]]), 'Error': np.matrix([[.1], [.2]])}}


def records(mon):
    from MTfit.utilities.file_io import hyp_output_dicts, hyp_output, read_binary_output, read_hyp_output, read_sf_output
    r = mon.rng
    for i in range(mon.n(500, 8000)):
        f = scratch('b%d_%d.hyp' % (mon.shard, i))
        k = int(r.integers(1, 4))
        kind = ['separate', 'joint', 'joint_scale'][r.integers(3)]
        wild = bool(r.random() < .4)
        det = dict(kind=kind, records=k, wild=wild)
        event = copy.deepcopy(STATION)
        if kind == 'separate':
            recs = [record(r, size(r), wild=wild) for _ in range(k)]
            parts = []
            for x in recs:
                with silent():
                    parts.append(mon.call('results_are_made', hyp_output_dicts, copy.deepcopy(event), ['PPolarity'], copy.deepcopy(x)))
            out = ['\n'.join(x[0] for x in parts), b''.join(x[1] for x in parts), b''.join(x[2] for x in parts)]
            want = [(x, '') for x in recs]
        else:
            k = max(k, 2)
            n = size(r)
            conv = bool(r.random() < .5)
            base = record(r, n, converted=conv, end='_1', wild=wild)
            for j in range(2, k+1):
                x = record(r, n, converted=conv, end='_%d' % j, wild=wild)
                base.update({a: b for a, b in x.items() if a.endswith('_%d' % j)})
            if kind == 'joint_scale':
                base['scale_factors'] = [{'mu': r.normal(size=(k, k)), 'sigma': r.random((k, k))} for _ in range(n)]
            with silent():
                out = list(mon.call('results_are_made', hyp_output_dicts, [copy.deepcopy(event) for _ in range(k)], ['PPolarity'], copy.deepcopy(base), False, False, True))
            want = [(base, '_%d' % j) for j in range(1, k+1)]
        det['sizes'] = [x['moment_tensor_space'+e].shape[1] for x, e in want]
        det['converted'] = ['g'+e in x for x, e in want]
        with silent():
            mon.call('results_are_written', hyp_output, out, fid=f)
        mt = f.replace('.hyp', '.mt')
        if mon.check(os.path.exists(mt), 'binary_file_is_written', **det):
            got = mon.call('binary_file_reads', read_binary_output, mt)
            if mon.check(len(got) == len(want), 'every_record_is_read', got=len(got), want=len(want), **det):
                for g, (w, e) in zip(got, want):
                    same_record(mon, g, w, 'reading', det, e)
            got = mon.call('results_read', read_hyp_output, f)[0]
            if mon.check(len(got) == len(want), 'every_record_is_read', got=len(got), want=len(want), **det):
                for g, (w, e) in zip(got, want):
                    same_record(mon, g, w, 'reading_results', det, e)
            os.remove(mt)
        sf = f.replace('.hyp', '.sf')
        if kind == 'joint_scale':
            if mon.check(os.path.exists(sf), 'scale_factor_file_is_written', **det):
                got = mon.call('scale_factor_file_reads', read_sf_output, sf)
                mon.check(len(got) == k, 'scale_factors_of_every_event_are_read', got=len(got), want=k, **det)
                pairs = [(a, b) for a in range(k) for b in range(a+1, k)]
                for g in got:
                    if n:
                        mon.check(np.array_equal(np.asarray(g['scale_factors']), np.array([[x['mu'][p] for x in base['scale_factors']] for p in pairs])) and
                                  np.array_equal(np.asarray(g['sigma']), np.array([[x['sigma'][p] for x in base['scale_factors']] for p in pairs])), 'scale_factors_are_read', n=n, **det)
                    mon.check(np.array_equal(np.asarray(g['probability']).flatten(), np.asarray(base['probability']).flatten()) and g['total_number_samples'] == base['total_number_samples'], 'scale_factor_probabilities_are_read', **det)
        for x in (f, sf):
            if os.path.exists(x):
                os.remove(x)
        mon.event('record_files')
        mon.event('converted_records', sum(det['converted']))
        mon.case(('rec', kind, tuple(det['sizes']), tuple(det['converted']), wild, float(r.random())), sample=det)


# results of whole inversions

def frontend(mon):
    import gc
    from MTfit.inversion import Inversion
    from MTfit.utilities.file_io import read_binary_output, read_sf_output
    from vpm import events as ev
    gc.collect()
    gc.freeze()
    gc.collect = lambda *a: 0
    r = mon.rng
    algs = ['iterate', 'iterate', 'mcmc', 'transdmcmc']
    for i in range(mon.n(40, 500)):
        alg = algs[i % len(algs)]
        conv = bool(r.random() < .6)
        joint = alg == 'iterate' and bool(r.random() < .4)
        rel = joint and bool(r.random() < .6)
        nev = int(r.integers(1, 4)) if not joint else int(r.integers(2, 4))
        keys = ['PPolarity']+(['PAmplitude'] if rel else [])+(['P/SHAmplitudeRatio'] if 'mcmc' not in alg and r.random() < .3 else [])
        model = T.unit6(r)[0]
        net = ev.network(r, 6)
        data = []
        for j in range(nev):
            e = ev.make(r, keys, nmax=4, model=model, sigma0=False, net=net, amp_names=net[0] if rel else None)
            d = copy.deepcopy(e.data)
            for q in d.values():
                q['Stations'].update({a: np.matrix(np.asarray(q['Stations'][a], float).reshape(-1, 1)) for a in ('Azimuth', 'TakeOffAngle')})
            if 'mcmc' in alg:
                # (a chain starts from a source that the data allow)
                d['PPolarity']['Error'] = np.maximum(d['PPolarity']['Error'], .5)
            d['UID'] = 'E%d' % j
            data.append(d)
        path = scratch('f%d_%d' % (mon.shard, i))
        os.makedirs(path)
        det = dict(algorithm=alg, convert=conv, joint=joint, relative=rel, events=nev, keys=keys)
        kw = {'iterate': dict(max_samples=int(r.choice([100, 1000, 4000])), number_samples=int(r.choice([50, 500])))}.get(alg, dict(
            chain_length=int(r.choice([5, 40])), learning_length=10, acceptance_rate_window=10, min_number_initialisation_samples=10))
        if joint:
            kw.update(multiple_events=True, relative_amplitude=rel, minimum_number_intersections=1)
        saved = []
        with silent() as o:
            inv = mon.call('inversion_starts', Inversion, data if nev > 1 else data[0], algorithm=alg, parallel=False, phy_mem=.5, convert=conv, path=path, output_format='hyp', results_format='hyp', inversion_options=keys, **kw)
            original = inv.output

            def record_output(event_data, fid='MTfitOutput.mat', output_data=False, *a, **k):
                if not output_data and not k.get('station_only', False):
                    output_data = inv.algorithm.output(inv.normalise, inv.convert, inv.discard)[0]
                saved.append((fid, copy.deepcopy(output_data)))
                return original(event_data, fid, output_data, *a, **k)
            inv.output = record_output
            mon.call('inversion_runs', inv.forward)
        for fid, res in saved:
            if not isinstance(res, dict) or not len(res['probability']):
                mon.event('no_result')
                continue
            f = os.path.join(path, os.path.basename(os.path.splitext(fid)[0]))+'.mt'
            if not mon.check(os.path.exists(f), 'results_of_the_inversion_are_written', files=os.listdir(path), fid=fid, out=o.getvalue()[-600:], **det):
                continue
            got = mon.call('binary_file_reads', read_binary_output, f)
            ends = [''] if 'moment_tensor_space' in res else ['_%d' % j for j in range(1, nev+1)]
            if mon.check(len(got) == len(ends), 'every_record_is_read', got=len(got), want=len(ends), **det):
                for g, e in zip(got, ends):
                    same_record(mon, g, res, 'reading_the_inversion', det, e)
            if 'scale_factors' in res:
                sf = mon.call('scale_factor_file_reads', read_sf_output, f.replace('.mt', '.sf'))
                pairs = [(a, b) for a in range(nev) for b in range(a+1, nev)]
                for g in sf:
                    mon.check(np.array_equal(np.asarray(g['scale_factors']), np.array([[x['mu'][p] for x in res['scale_factors']] for p in pairs])), 'scale_factors_of_the_inversion_are_read', **det)
                mon.event('inversion_scale_factors')
            mon.check(('g'+ends[0] in res) == conv, 'conversion_is_in_the_results', **det)
            mon.event('inversion_results')
            mon.event('inversion_results_'+alg)
        mon.check(len(saved) >= 1, 'the_inversion_gives_results', out=o.getvalue()[-600:], **det)
        for x in os.listdir(path):
            os.remove(os.path.join(path, x))
        os.rmdir(path)
        mon.case(('front', i, alg, conv, joint, rel, nev), sample=det)


WORKLOADS = {
    'csv': dict(fn=csv, flavours=['py'], shards={'quick': 2, 'thorough': 8}, need={'rows': 3000, 'csv_files': 200, 'gap_kind_0': 20, 'gap_kind_1': 20, 'gap_kind_2': 20}, timeout={'quick': 300, 'thorough': 850}),
    'hyp': dict(fn=hyp, flavours=['py', 'c'], shards={'quick': 2, 'thorough': 4}, need={'picks': 3000, 'hyp_with_prior_weights': 30, 'hyp_without_prior_weights': 30}, timeout={'quick': 300, 'thorough': 850}),
    'records': dict(fn=records, flavours=['py', 'c'], shards={'quick': 2, 'thorough': 4}, need={'samples_read': 3000, 'converted_records': 100}, timeout={'quick': 300, 'thorough': 850}),
    'frontend': dict(fn=frontend, flavours=['py', 'c'], shards={'quick': 2, 'thorough': 4}, need={'inversion_results': 30, 'inversion_scale_factors': 1}, timeout={'quick': 400, 'thorough': 880}),
}

if __name__ == '__main__':
    harness.main('C17', __file__, WORKLOADS,
                 rule='one case = one generated file (or one inversion whose results are written), told apart by its contents',
                 assumptions=['a csv type has the same number of values in the measured (error) field of each of its rows',
                              'tensors may differ by the rounding of dividing and multiplying by sqrt(2)',
                              'the first motions of NonLinLoc are c/u/+ (up), d/- (down), p/n for the sign of S phases, and anything else is no pick'])
