"""Independent description of the Markov-chain proposal, priors and acceptance in the Tape parameters."""
import math
import numpy as np
from scipy import special, stats

G, D, PI = math.pi/6, math.pi/2, math.pi
BOUNDS = {'gamma': (-G, G), 'delta': (-D, D), 'h': (0., 1.), 'sigma': (-D, D)}
MAXW = {'kappa': PI/2, 'h': .5, 'sigma': PI/4, 'gamma': PI/12, 'delta': PI/4, 'alpha': PI/4, 'poisson': .1}
BETA = 5.745
PRIOR_CONST = 1.10452194071529090000   # constant carried by the sampler's 'uniform' full-tensor density
KEYS = ['gamma', 'delta', 'kappa', 'h', 'sigma']


def f(x):
    return float(np.asarray(x, dtype=float).reshape(-1)[0])


def plain(x):
    return {k: f(v) for k, v in x.items()}


def is_dc(x):
    return f(x['gamma']) == 0. and f(x['delta']) == 0.


def ln_trunc(x, mu, s, lo, hi):
    """ln density at x of a Gaussian about mu truncated to [lo, hi]"""
    a, b = (lo-mu)/s, (hi-mu)/s
    z = special.ndtr(b)-special.ndtr(a) if a < 0 < b else abs(special.ndtr(-a)-special.ndtr(-b))
    return -.5*((x-mu)/s)**2-math.log(s*math.sqrt(2*PI))-math.log(z)


def ln_q(x, frm, w, dc):
    """ln density of proposing x from frm (strike, uniform and symmetric on the circle, left out)"""
    return sum(ln_trunc(f(x[k]), f(frm[k]), w[k], *BOUNDS[k]) for k in (['h', 'sigma'] if dc else ['gamma', 'delta', 'h', 'sigma']))


def prior(x, kind, dc=None):
    """density over the lune, given strike, dip cosine and slip"""
    if dc is None:
        dc = is_dc(x)
    if dc:
        return 1.
    if kind == 'flat_prior':
        return 3/PI**2
    g, d = f(x['gamma']), f(x['delta'])
    u = (d+D)/PI
    if u <= 0 or u >= 1:
        return 0.
    b = math.exp((BETA-1)*(math.log(u)+math.log1p(-u))-special.betaln(BETA, BETA))
    return 1.5*math.cos(3*g)*b/PI*PRIOR_CONST


def balance(x, sg, sd, gaussian=True):
    """density of the dimension-balancing draw"""
    if not gaussian:
        return 3/PI**2
    return math.exp(ln_trunc(f(x['gamma']), 0., sg, -G, G)+ln_trunc(f(x['delta']), 0., sd, -D, D))


def _ln(x):
    return math.log(x) if x > 0 else -math.inf


def ln_ratio(x, frm, w, kind, dc_prior=None, gaussian=True):
    """ln of the ratio without the likelihoods, for a proposal x from frm of one event.
    A change of model is a jump (needs dc_prior); otherwise a shift. nan when undefined (0/0)."""
    a, b = is_dc(frm), is_dc(x)
    if a == b or dc_prior is None:
        dc = a and b
        n, d = prior(x, kind, dc), prior(frm, kind, dc)
        if n == 0 and d == 0:
            return math.nan
        return _ln(n)-_ln(d)+ln_q(frm, x, w, dc)-ln_q(x, frm, w, dc)
    if a:   # up
        return _ln(prior(x, kind))-_ln(balance(x, w['gamma_dc'], w['delta_dc'], gaussian))+_ln(1-dc_prior)-_ln(dc_prior)
    if prior(frm, kind) == 0:
        return math.inf
    return -_ln(prior(frm, kind))+_ln(balance(frm, w['gamma_dc'], w['delta_dc'], gaussian))+_ln(dc_prior)-_ln(1-dc_prior)


def accept(lr, l1, l0):
    """acceptance from ln ratio and ln likelihoods of proposal and current state"""
    if l1 == -math.inf:
        return 0.
    if l0 == -math.inf:
        return 1.
    t = lr+(l1-l0)
    if math.isnan(t):
        return math.nan
    return 1. if t >= 0 else math.exp(t)


# -- generators
def state(r, dc=False, mode=None):
    """a state in the domain; mode 'edge' puts components on or very near the bounds"""
    x = {'gamma': 0., 'delta': 0., 'kappa': r.uniform(0, 2*PI), 'h': r.uniform(), 'sigma': r.uniform(-D, D)}
    if not dc:
        x['gamma'], x['delta'] = r.uniform(-G, G), r.uniform(-D, D)
    mode = mode or r.choice(['plain', 'plain', 'edge', 'near', 'prior'])
    if mode == 'prior' and not dc:
        x['delta'] = (r.beta(BETA, BETA)-.5)*PI
        x['gamma'] = math.asin(r.uniform(-1, 1))/3
    if mode in ('edge', 'near'):
        for k in (['h', 'sigma'] if dc else ['gamma', 'delta', 'h', 'sigma']):
            if r.random() < .5:
                lo, hi = BOUNDS[k]
                e = 0. if mode == 'edge' else 10**r.uniform(-12, -1)*(hi-lo)
                x[k] = lo+e if r.random() < .5 else hi-e
        if r.random() < .3:
            x['kappa'] = float(r.choice([0., np.nextafter(2*PI, 0), 1e-12, 1e-3]))
        if not dc and r.random() < .15:   # one source-type parameter exactly zero, not both
            x[r.choice(['gamma', 'delta'])] = 0.
            if is_dc(x):
                x['gamma'] = .1
    return x


def widths(r, trans=False, hostile=True):
    w = {}
    for k, m in MAXW.items():
        p = r.random()
        w[k] = m if p < .15 else (m*10**r.uniform(-4, 0) if hostile and p < .5 else m*r.uniform(.2, 1))
    if trans:
        w['gamma_dc'] = 10**r.uniform(-1.5, .3)
        w['delta_dc'] = 10**r.uniform(-1.5, .3)
    return w


def trunc_draw(r, mu, s, lo, hi):
    a, b = special.ndtr((lo-mu)/s), special.ndtr((hi-mu)/s)
    return float(np.clip(mu+s*special.ndtri(a+(b-a)*r.random()), lo, hi))


def proposal(r, x, w, dc):
    """a draw from the proposal density (own generator)"""
    y = {'gamma': 0., 'delta': 0.}
    for k in (['h', 'sigma'] if dc else ['gamma', 'delta', 'h', 'sigma']):
        y[k] = trunc_draw(r, x[k], w[k], *BOUNDS[k])
    y['kappa'] = (x['kappa']+w['kappa']*r.normal()) % (2*PI)
    if y['kappa'] >= 2*PI:
        y['kappa'] = 0.
    if not dc and is_dc(y):
        y['gamma'] = 1e-3
    return y


def set_widths(alg, ws):
    """give the chain these proposal widths (normalisation of the balancing draw as its constructor would)"""
    out = []
    for w in ws:
        w = dict(w)
        if 'gamma_dc' in w:
            w['proposal_normalisation'] = float((1-2*special.ndtr(-G/w['gamma_dc']))*(1-2*special.ndtr(-D/w['delta_dc'])))
        out.append(w)
    alg.alpha = out if alg.number_events > 1 else out[0]


def make(n_events=1, trans=False, dc=False, tries=0, **kw):
    from MTfit.algorithms.markov_chain_monte_carlo import McMCAlgorithmCreator
    kw.setdefault('initial_sample', '')
    kw.setdefault('learning_length', 10**7)
    kw.setdefault('acceptance_rate_window', 10**7)
    kw.setdefault('chain_length', 10**7)
    return McMCAlgorithmCreator(number_samples=tries, trans_dimensional=trans, number_events=n_events, dc=dc, **kw)


class Rand(object):
    """stands in for numpy.random.rand while a decision is taken: every uniform number is u"""
    def __init__(self, u):
        self.u, self.calls = u, 0

    def __call__(self, *shape):
        self.calls += 1
        if shape:
            return np.full(shape, self.u)
        return self.u

    def __enter__(self):
        self.real = np.random.rand
        np.random.rand = self
        return self

    def __exit__(self, *a):
        np.random.rand = self.real
