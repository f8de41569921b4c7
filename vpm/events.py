"""Event data generators with an independent description of every observation they hold."""
import numpy as np

R2 = np.sqrt(2)


def ray(az, toa, phase):
    """polarisation vector and ray direction, north-east-down, degrees, take-off from down"""
    t, p = np.radians(toa), np.radians(az)
    g = np.array([np.sin(t)*np.cos(p), np.sin(t)*np.sin(p), np.cos(t)])
    v = {'p': g, 'sv': np.array([np.cos(t)*np.cos(p), np.cos(t)*np.sin(p), -np.sin(t)]), 'sh': np.array([-np.sin(p), np.cos(p), 0*t])}[phase]
    return v, g


def coeff(az, toa, phase):
    """six-vector c with c.m6 = v.M.g; the last axis is the component"""
    v, g = ray(np.asarray(az, dtype=float), np.asarray(toa, dtype=float), phase)
    c = [v[0]*g[0], v[1]*g[1], v[2]*g[2], (v[0]*g[1]+v[1]*g[0])/R2, (v[0]*g[2]+v[2]*g[0])/R2, (v[1]*g[2]+v[2]*g[1])/R2]
    return np.stack(c, -1)


def angles(r, n, wild=False):
    m = r.integers(4)
    az, toa = r.uniform(0, 360, n), np.degrees(np.arccos(r.uniform(-1, 1, n)))
    if m == 0:
        az = r.choice([0., 45., 90., 135., 180., 225., 270., 315., 360.], n)
        toa = r.choice([0., 30., 45., 60., 90., 120., 135., 180.], n)
    elif m == 1:
        az, toa = np.round(az, 1), np.round(toa, 1)
    if wild and r.random() < .4:
        az = az+360.*r.integers(-20, 20, n)
    return az, toa


def col(r, x, form=None):
    """the documented column matrix, or the one-dimensional array the test-suite uses"""
    x = np.asarray(x, dtype=float)
    k = r.integers(3) if form is None else form
    if k == 0:
        return np.array(x)
    return np.matrix(x).T


POL = ['PPolarity', 'SHPolarity', 'SVPolarity']
PROB = ['PPolarityProbability', 'SHPolarityProbability', 'SVPolarityProbability']
RATIO = [b.replace('#', q) for b in ['P/SH#AmplitudeRatio', 'P/SV#AmplitudeRatio', 'SH/SV#AmplitudeRatio'] for q in ['', 'RMS', 'Q', 'QRMS']]
AMP = [p+q+'Amplitude' for p in ['P', 'SH', 'SV'] for q in ['', 'RMS', 'Q', 'QRMS']]


def phases(key):
    k = key.lower().split('polarity')[0].split('amplitude')[0]
    out = []
    for p in k.split('/'):
        for c in ('sh', 'sv', 'p'):
            if p.startswith(c):
                out.append(c)
                break
    return out


class Event(object):
    """data: the dictionary handed to MTfit. obs: one record per observation."""

    def __init__(self):
        self.data, self.obs = {}, []

    def of(self, kind):
        return [o for o in self.obs if o['kind'] == kind]


def network(r, n):
    names = ['S%03d' % i for i in r.permutation(900)[:n]]
    if r.random() < .1:
        names = [x.lower()+'_'+str(i % 3) for i, x in enumerate(names)]
    az, toa = angles(r, n)
    return names, az, toa


def make(r, keys, net=None, nmax=8, model=None, min_err=1e-5, sigma0=True, amp_names=None):
    """net: (names, az, toa) of all stations; each type gets its own subset in its own order.
    model: a six-vector near which the data are drawn (otherwise arbitrary)."""
    ev = Event()
    if net is None:
        net = network(r, int(r.integers(1, nmax+3)))
    names, az, toa = net
    order = list(keys)
    r.shuffle(order)
    for key in order:
        low = key.lower()
        n = int(r.integers(1, min(nmax, len(names))+1))
        sel = r.permutation(len(names))[:n]
        if amp_names is not None and 'amplitude' in low and 'ratio' not in low:
            sel = [names.index(x) for x in amp_names]
            n = len(sel)
        nm = [names[i] for i in sel]
        a, t = np.array([az[i] for i in sel]), np.array([toa[i] for i in sel])
        ph = phases(key)
        form = r.integers(3)
        st = {'Name': list(nm), 'Azimuth': col(r, a, form), 'TakeOffAngle': col(r, t, form)}
        pred = [coeff(a, t, p).dot(model) if model is not None else r.normal(size=n) for p in ph]
        d = {'Stations': st}
        if 'prob' in low:
            pp = r.choice([0., 1., 0.5, -1], n)
            pp = np.where(pp < 0, r.random(n), pp)
            if model is not None:
                hit = r.random(n) < .9
                pp = np.where(hit, np.where(pred[0] > 0, np.maximum(pp, .4), np.minimum(pp, .6)), pp)
            pn = 1-pp
            if r.random() < .2:
                pn = r.random(n)
            d['Measured'] = np.matrix(np.array([pp, pn]).T)
            d['Error'] = np.matrix(0.01*np.ones((n, 1)))
            w = _mispick(r, d, n)
            for i in range(n):
                ev.obs.append(dict(kind='prob', key=key, phase=ph[0], name=nm[i], az=a[i], toa=t[i], pp=pp[i], pn=pn[i], w=w[i]))
        elif 'polarity' in low:
            y = r.choice([-1, 1], n)
            if model is not None:
                y = np.where(r.random(n) < .93, np.where(pred[0] >= 0, 1, -1), y)
            s = np.abs(r.normal(size=n))*10**r.uniform(-3, 0.5)+1e-4
            if sigma0:
                z = r.integers(4)
                if z == 0:
                    s[:] = 0
                elif z == 1:
                    s[r.integers(n)] = 0
            d['Measured'] = np.matrix(y).T if r.random() < .7 else np.matrix(y*1.0).T
            d['Error'] = np.matrix(s).T
            w = _mispick(r, d, n)
            for i in range(n):
                ev.obs.append(dict(kind='pol', key=key, phase=ph[0], name=nm[i], az=a[i], toa=t[i], y=float(y[i]), s=s[i], w=w[i]))
        elif 'ratio' in low:
            m = np.abs(np.array(pred).T)*10**r.uniform(-3, 3)*np.exp(r.normal(size=(n, 2))*r.choice([0.01, 0.3, 1.]))+1e-6
            m = m*r.choice([-1., 1.], (n, 2))
            f = 10**r.uniform(-3, 0.3, (n, 2)) if r.random() < .7 else 10**r.uniform(np.log10(min_err), 1, (n, 2))
            f = np.maximum(f, min_err*1.01)
            d['Measured'], d['Error'] = np.matrix(m), np.matrix(f*np.abs(m))
            for i in range(n):
                ev.obs.append(dict(kind='ratio', key=key, phase=tuple(ph), name=nm[i], az=a[i], toa=t[i], z=abs(m[i, 0]/m[i, 1]),
                                   p1=d['Error'][i, 0]/abs(m[i, 0]), p2=d['Error'][i, 1]/abs(m[i, 1])))
        else:
            m = np.abs(pred[0])*10**r.uniform(-2, 2)*np.exp(r.normal(size=n)*.2)+1e-6
            m = m*r.choice([-1., 1.], n)
            f = 10**r.uniform(-2.5, 0, n)
            d['Measured'], d['Error'] = np.matrix(m).T, np.matrix(f*np.abs(m)).T
            for i in range(n):
                ev.obs.append(dict(kind='amp', key=key, phase=ph[0], name=nm[i], az=a[i], toa=t[i], x=abs(m[i]), p=d['Error'][i, 0]/abs(m[i])))
        ev.data[key] = d
    ev.net = net
    return ev


def _mispick(r, d, n):
    """given for all, some or no polarity types"""
    m = r.integers(5)
    if m < 2:
        return np.zeros(n)
    w = r.choice([0., 1., .5, -1, -1], n)
    w = np.where(w < 0, r.random(n), w)
    if m == 2:
        w = r.random(n)*.2
    if m == 4:
        w = np.zeros(n)
    d['IncorrectPolarityProbability'] = np.matrix(w).T
    return w


def location_records(r, net, k, spread=10., permute=True, dup=False):
    """k records listing every station of the network and some others, each in its own order"""
    names, az, toa = net
    extra = ['X%02d' % i for i in range(int(r.integers(0, 4)))]
    recs, table = [], []
    for j in range(k):
        if dup and j and r.random() < .4:
            q = table[int(r.integers(j))]
        else:
            q = {}
            for i, nme in enumerate(names):
                t = float(np.clip(toa[i]+r.normal()*spread, 0, 180))
                q[nme] = (float(az[i]+r.normal()*spread) % 360., t)
            for nme in extra:
                q[nme] = (r.uniform(0, 360), r.uniform(0, 180))
        o = list(q.keys())
        if permute and (r.random() < .7 or j == 0):
            o = [o[i] for i in r.permutation(len(o))]
        recs.append({'Name': list(o), 'Azimuth': np.matrix([q[x][0] for x in o]).T, 'TakeOffAngle': np.matrix([q[x][1] for x in o]).T})
        table.append(q)
    return recs, table


def copy_records(recs):
    return [{'Name': list(q['Name']), 'Azimuth': q['Azimuth'].copy(), 'TakeOffAngle': q['TakeOffAngle'].copy()} for q in recs]


def coeffs(obs, table=None, idx=None):
    """(u, v, 6) of the observations, over the location samples if there are any"""
    out = []
    for o in obs:
        ph = o['phase'] if idx is None else o['phase'][idx]
        if table is None:
            out.append([coeff(o['az'], o['toa'], ph)])
        else:
            out.append([coeff(q[o['name']][0], q[o['name']][1], ph) for q in table])
    return np.array(out)
