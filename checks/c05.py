"""C05: Markov-chain acceptance satisfies detailed balance for shifts and model jumps.

The public acceptance(), transition_pdf(), prior() and jump_params() are watched on generated state pairs against an
independent log-space oracle, and the decisions the chains actually take (single and multiple try, one or joint events,
Python and C) are watched at both sides of the oracle's acceptance by scripting the uniform numbers they draw."""
import gc
import math
import os
import sys
import numpy as np
from scipy import stats
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vpm import harness, mcmc
from vpm.harness import p_confirm
from vpm.mcmc import make, state, widths, proposal, set_widths, ln_ratio, accept, is_dc, plain, Rand

INF = math.inf
PRIORS = ['uniform_prior', 'flat_prior']


def likelihoods(r):
    """ln likelihood of current and proposed state"""
    p = r.random()
    if p < .06:
        return -INF, float(r.normal()*50)
    if p < .12:
        return float(r.normal()*50), -INF
    if p < .15:
        return -INF, -INF
    base = float(r.choice([0., 1., -30., -700., -5000., 300.]))*r.random()
    d = float(r.choice([0., .3, 3., 40., 800.]))*r.normal()
    return base, base+d


def pair(r, w, dc):
    """current and proposed state of one model, reachable (the density does not underflow)"""
    x = state(r, dc)
    p = r.random()
    if p < .55:
        return x, proposal(r, x, w, dc)
    for _ in range(60):
        y = state(r, dc)
        if max(abs(y[k]-x[k])/w[k] for k in mcmc.BOUNDS) < 20:
            return x, y
    return x, proposal(r, x, w, dc)


def jumped(r, x, w, up, gaussian=True):
    """proposed state of a model jump from x"""
    y = {k: x[k] for k in ['kappa', 'h', 'sigma']}
    if up:
        p = r.random()
        if p < .25:
            y['gamma'], y['delta'] = float(r.choice([-1, 1]))*mcmc.G, r.uniform(-mcmc.D, mcmc.D)
        elif p < .35:
            y['gamma'], y['delta'] = 0., r.uniform(-1.5, 1.5)
        elif p < .45:
            y['gamma'], y['delta'] = r.uniform(-.5, .5), 0.
        else:
            y['gamma'] = mcmc.trunc_draw(r, 0, w['gamma_dc'], -mcmc.G, mcmc.G)
            y['delta'] = mcmc.trunc_draw(r, 0, w['delta_dc'], -mcmc.D, mcmc.D)
    else:
        y['g0'], y['d0'] = x['gamma'], x['delta']
        y['gamma'] = y['delta'] = 0.
    return y


def as_chain(r, x):
    """the chain holds its values as floats or as one-element arrays"""
    x = dict(x)
    if r.random() < .3:
        for k in x:
            if not (k in ('gamma', 'delta') and x[k] == 0):
                x[k] = np.array([x[k]])
    return x


def put(alg, xs, l0, dcs, jump=False):
    n = alg.number_events
    alg.xi = [dict(x) for x in xs] if n > 1 else dict(xs[0])
    alg.dc = list(dcs) if n > 1 else dcs[0]
    alg.ln_likelihood_xi = l0
    alg.jump = jump


def judge(mon, got, want, rule, **d):
    if math.isnan(want):
        mon.event('undefined_ratio_skipped')
        return
    g = mcmc.f(got)
    mon.check(0 <= g <= 1, 'acceptance_is_a_probability', got=g, **d)
    if want == 0:
        mon.check(g == 0 or g < 1e-12, rule, got=g, want=want, **d)
    else:
        mon.close(g, want, rule, rtol=2e-7, atol=1e-13, **d)
    mon.event('acceptance_one' if want == 1 else 'acceptance_zero' if want == 0 else 'acceptance_between')


def balance_identity(mon, alg_ab, alg_ba, lpa, lpb, lqab, lqba, la, lb, rule, **d):
    """prior(x) L q(x'|x) a = prior(x') L' q(x|x') a', in logs"""
    if not (math.isfinite(la) and math.isfinite(lb) and math.isfinite(lpa) and math.isfinite(lpb)):
        return
    a, b = mcmc.f(alg_ab), mcmc.f(alg_ba)
    if min(a, b) < 1e-290:     # underflowed acceptance
        mon.check(max(a, b) == 1 or max(a, b) == 0, rule, a=a, b=b, **d)
        return
    lhs, rhs = lpa+la+lqab+math.log(a), lpb+lb+lqba+math.log(b)
    mon.check(abs(lhs-rhs) < 1e-6+1e-12*(abs(la)+abs(lb)), rule, lhs=lhs, rhs=rhs, a=a, b=b, **d)


def shift(mon):
    """proposals within one model, one event: the full tensor, a double-couple chain, either state of a trans-dimensional chain"""
    gc.collect(); gc.freeze()
    r = mon.rng
    algs = []
    for pr in PRIORS:
        algs += [(make(sampling_prior=pr), pr, False), (make(sampling_prior=pr, dc=True), pr, True),
                 (make(sampling_prior=pr, trans=True), pr, False), (make(sampling_prior=pr, trans=True), pr, True),
                 (make(sampling_prior=pr, tries=int(r.integers(1, 20))), pr, False), (make(sampling_prior=pr, tries=50, dc=True), pr, True)]
    for i in range(mon.n(9000, 90000)):
        k = int(r.integers(len(algs)))
        alg, pr, dc = algs[k]
        trans = k % 6 in (2, 3)
        w = widths(r, trans)
        x, y = pair(r, w, dc)
        l0, l1 = likelihoods(r)
        if trans and dc and r.random() < .4:    # a double-couple state reached by a jump keeps its balancing values
            x['g0'], x['d0'] = .1, .2
        cx, cy = as_chain(r, x), as_chain(r, y)
        set_widths(alg, [w])
        put(alg, [cx], l0, [dc])
        det = dict(x=x, y=y, w=w, l0=l0, l1=l1, prior=pr, dc=dc, trans=trans)
        lr = ln_ratio(y, x, w, pr)
        a = mon.call('acceptance_answers', alg.acceptance, cy, l1)
        judge(mon, a, accept(lr, l1, l0), 'shift_acceptance_is_the_metropolis_ratio', **det)
        put(alg, [cy], l1, [dc])
        b = mon.call('acceptance_answers', alg.acceptance, cx, l0)
        judge(mon, b, accept(-lr, l0, l1), 'shift_acceptance_is_the_metropolis_ratio', **det)
        px, py = mon.call('prior_answers', alg.prior, cx), mon.call('prior_answers', alg.prior, cy)
        mon.close(mcmc.f(px), mcmc.prior(x, pr), 'prior_density', rtol=1e-8, atol=1e-13, **det)
        mon.close(mcmc.f(py), mcmc.prior(y, pr), 'prior_density', rtol=1e-8, atol=1e-13, **det)
        qxy = mon.call('transition_answers', alg.transition_pdf, cy, cx)
        qyx = mon.call('transition_answers', alg.transition_pdf, cx, cy)
        lxy, lyx = mcmc.ln_q(y, x, w, dc), mcmc.ln_q(x, y, w, dc)
        mon.close(qxy, math.exp(lxy), 'transition_density_is_the_truncated_gaussian', rtol=1e-8, atol=1e-290, **det)
        mon.close(qyx, math.exp(lyx), 'transition_density_is_the_truncated_gaussian', rtol=1e-8, atol=1e-290, **det)
        if mcmc.f(px) > 0 and mcmc.f(py) > 0:
            balance_identity(mon, a, b, math.log(mcmc.f(px)), math.log(mcmc.f(py)), lxy, lyx, l0, l1, 'detailed_balance_of_a_shift', **det)
        mon.case((np.array([x[q] for q in mcmc.KEYS]+[y[q] for q in mcmc.KEYS]+[l0, l1]), pr, k), sample=det)


def quadrature(mon):
    """the transition and balancing densities integrate to one over the domain and the priors are what the sampler says"""
    r = mon.rng
    for i in range(mon.n(40, 400)):
        pr = PRIORS[i % 2]
        sg, sd = 10**r.uniform(-1.5, .5), 10**r.uniform(-1.5, .5)
        alg = make(trans=True, sampling_prior=pr, dc_sigma_g=sg, dc_sigma_d=sd)
        
        # balancing density over the lune, as configured through the constructor
        def panel(lo, hi, s):
            e = np.unique(np.clip(np.concatenate([[lo, hi], s*np.array([-40, -12, -6, -3, -1, 0, 1, 3, 6, 12, 40])]), lo, hi))
            xs, ws = [], []
            for p, q in zip(e[:-1], e[1:]):
                t, wt = np.polynomial.legendre.leggauss(10)
                xs.append((q-p)/2*t+(p+q)/2)
                ws.append((q-p)/2*wt)
            return np.concatenate(xs), np.concatenate(ws)
        gx, gw = panel(-mcmc.G, mcmc.G, sg)
        dx, dw = panel(-mcmc.D, mcmc.D, sd)
        tot = 0.
        for a, wa in zip(gx, gw):
            tot += wa*sum(wd*mcmc.f(alg.jump_params({'gamma': a, 'delta': d})) for d, wd in zip(dx[::1], dw))
        mon.close(tot, 1., 'balancing_density_integrates_to_one', rtol=1e-5, sg=sg, sd=sd)
        x = state(r)
        w = widths(r, hostile=False)
        set_widths(alg, [dict(w, gamma_dc=sg, delta_dc=sd)])
        alg.dc = False
        # transition density over one parameter at a time, the rest held: a truncated Gaussian profile
        for k in mcmc.BOUNDS:
            lo, hi = mcmc.BOUNDS[k]
            t, wt = np.polynomial.legendre.leggauss(80)
            t, wt = (hi-lo)/2*t+(lo+hi)/2, (hi-lo)/2*wt
            vals = np.array([alg.transition_pdf(dict(x, **{k: v}), x, dc=False) for v in t])
            ref = math.exp(mcmc.ln_q(x, x, w, False)-mcmc.ln_trunc(x[k], x[k], w[k], lo, hi))
            mon.close((vals*wt).sum()/ref, 1., 'transition_density_integrates_to_one', rtol=1e-3, key=k, x=x, w=w)
        mon.case((i, sg, sd))


def jumps(mon):
    """model jumps of one event"""
    gc.collect(); gc.freeze()
    r = mon.rng
    for i in range(mon.n(5000, 50000)):
        pr = PRIORS[int(r.integers(2))]
        dcp = float(r.choice([.5, r.uniform(.001, .999), 10**r.uniform(-6, -1), 1-10**r.uniform(-6, -1)]))
        tries = int(r.choice([0, 0, 5]))
        if i % 25 == 0 or i == 0:
            pool = []
            for _ in range(4):
                kw = dict(trans=True, sampling_prior=pr, dc_prior=dcp)
                sg = sd = None
                if r.random() < .7:
                    sg, sd = 10**r.uniform(-1.5, .3), 10**r.uniform(-1.5, .3)
                    kw.update(dc_sigma_g=sg, dc_sigma_d=sd)
                pool.append((make(tries=tries, **kw), pr, sg or .2, sd or .2))
        alg, pr, sg, sd = pool[int(r.integers(len(pool)))]
        w = plain({k: v for k, v in alg.alpha.items()})
        w['gamma_dc'], w['delta_dc'] = sg, sd
        mt = state(r)
        if r.random() < .5:     # near where the balancing draw puts it
            mt['gamma'], mt['delta'] = mcmc.trunc_draw(r, 0, sg, -mcmc.G, mcmc.G), mcmc.trunc_draw(r, 0, sd, -mcmc.D, mcmc.D)
        if is_dc(mt):
            continue
        down = jumped(r, mt, w, False)
        base = dict(down)
        if r.random() < .5:
            base.pop('g0'), base.pop('d0')
        else:
            base['g0'], base['d0'] = .05, -.3       # left over from an earlier jump
        up = {k: mt[k] for k in mcmc.KEYS}
        l0, l1 = likelihoods(r)
        det = dict(mt=mt, l_dc=l0, l_mt=l1, prior=pr, dc_prior=dcp, sg=sg, sd=sd)
        lq = math.log(mcmc.balance(mt, sg, sd)) if mcmc.balance(mt, sg, sd) > 0 else -INF
        if lq < -600:
            mon.event('unreachable_by_the_balancing_draw_skipped')
            continue
        put(alg, [as_chain(r, base)], l0, [True], True)
        a = mon.call('acceptance_answers', alg.acceptance, as_chain(r, up), l1, dc_prior=dcp)
        lr = ln_ratio(up, base, w, pr, dcp)
        judge(mon, a, accept(lr, l1, l0), 'jump_to_the_full_tensor_acceptance', **det)
        put(alg, [as_chain(r, mt)], l1, [False], True)
        b = mon.call('acceptance_answers', alg.acceptance, as_chain(r, down), l0, dc_prior=dcp)
        judge(mon, b, accept(ln_ratio(down, mt, w, pr, dcp), l0, l1), 'jump_to_the_double_couple_acceptance', **det)
        q = mon.call('jump_params_answers', alg.jump_params, up)
        mon.close(mcmc.f(q), mcmc.balance(mt, sg, sd), 'balancing_density', rtol=1e-7, atol=1e-280, **det)
        pm = mcmc.f(mon.call('prior_answers', alg.prior, up))
        mon.close(pm, mcmc.prior(mt, pr), 'prior_density', rtol=1e-8, atol=1e-13, **det)
        mon.close(mcmc.f(mon.call('prior_answers', alg.prior, base)), 1., 'prior_density', **det)
        if pm > 0:
            balance_identity(mon, a, b, math.log(dcp), math.log(pm)+math.log(1-dcp), lq, 0., l0, l1, 'detailed_balance_of_a_jump', **det)
        mon.case((np.array([mt[k] for k in mcmc.KEYS]+[l0, l1, dcp, sg, sd]), pr), sample=det)
    # the documented alternative to the Gaussian balancing draw
    for tries in (0, 5):
        alg = make(trans=True, gaussian_jump_params=False, tries=tries)
        for _ in range(20):
            m = state(r, mode='plain')
            q = mcmc.f(mon.call('jump_params_answers', alg.jump_params, m))
            mon.check(abs(q-3/math.pi**2) < 1e-9, 'uniform_balancing_density', kf='uniform-balancing-density' if abs(q-3/(2*math.pi)) < 1e-9 else None, got=q, want=3/math.pi**2)


def scene(r, n, trans, pr, dcs, dcp, spread=1.):
    """a joint current state, one candidate and ln of the ratio"""
    w, xs, ys, lr = [], [], [], 0.
    same_w = widths(r, trans)
    sg, sd = 10**r.uniform(-1.2, .2), 10**r.uniform(-1.2, .2)
    for e in range(n):
        we = dict(same_w if r.random() < .4 else widths(r, trans))
        if trans:
            we['gamma_dc'], we['delta_dc'] = sg, sd
        w.append(we)
    return w


def candidate(r, xs, w, trans, dcs, pr, dcp):
    ys, lr, kinds = [], 0., []
    n = len(xs)
    for e in range(n):
        dc = is_dc(xs[e])
        if trans and r.random() < .45:
            y = jumped(r, xs[e], w[e], dc)
            if is_dc(y) == dc:
                y['gamma'], y['delta'] = .1, .1
            if dc and mcmc.balance(y, w[e]['gamma_dc'], w[e]['delta_dc']) < 1e-250:
                y['gamma'] = mcmc.trunc_draw(r, 0, w[e]['gamma_dc'], -mcmc.G, mcmc.G)
                y['delta'] = mcmc.trunc_draw(r, 0, w[e]['delta_dc'], -mcmc.D, mcmc.D)
            kinds.append('up' if dc else 'down')
        else:
            y = proposal(r, {k: xs[e][k] for k in mcmc.KEYS}, w[e], dc)
            kinds.append('shift')
        ys.append(y)
        lr += ln_ratio(y, xs[e], w[e], pr, dcp[e] if kinds[-1] != 'shift' else None)
    return ys, lr, kinds


def sane(r, xs, w, trans):
    """keep the states where neither prior nor balancing density underflows"""
    for x, we in zip(xs, w):
        if not is_dc(x):
            x['delta'] = float(np.clip(x['delta'], -1.4, 1.4))
            x['gamma'] = float(np.clip(x['gamma'], -.5, .5))
            if is_dc(x):
                x['gamma'] = .1
            if trans and mcmc.balance(x, we['gamma_dc'], we['delta_dc']) < 1e-200:
                x['gamma'] = mcmc.trunc_draw(r, 0, we['gamma_dc'], -mcmc.G, mcmc.G)
                x['delta'] = mcmc.trunc_draw(r, 0, we['delta_dc'], -mcmc.D, mcmc.D)


def joint(mon):
    """joint states of two or three events: the ratio is the product over events"""
    gc.collect(); gc.freeze()
    r = mon.rng
    algs = []
    for pr in PRIORS:
        for n in (2, 3):
            for dc in (False, True):
                algs.append((make(n, dc=dc, sampling_prior=pr), n, False, dc, pr))
                algs.append((make(n, dc=dc, sampling_prior=pr, tries=7), n, False, dc, pr))
            algs.append((make(n, trans=True, sampling_prior=pr), n, True, False, pr))
            algs.append((make(n, trans=True, sampling_prior=pr, tries=7), n, True, False, pr))
    for i in range(mon.n(3000, 30000)):
        alg, n, trans, dcc, pr = algs[int(r.integers(len(algs)))]
        dcs = [True if dcc else bool(trans and r.random() < .5) for _ in range(n)]
        dcp = [float(r.uniform(.02, .98))]*n
        w = scene(r, n, trans, pr, dcs, dcp)
        xs = [state(r, d) for d in dcs]
        sane(r, xs, w, trans)
        ys, lr, kinds = candidate(r, xs, w, trans, dcs, pr, dcp)
        l0, l1 = likelihoods(r)
        if r.random() < .5 and math.isfinite(l0) and math.isfinite(lr):
            l1 = l0-lr+math.log(r.uniform(.02, .98))       # an acceptance away from 0 and 1
        set_widths(alg, w)
        jump = any(k != 'shift' for k in kinds)
        put(alg, [as_chain(r, x) for x in xs], l0, dcs, jump)
        args = (dcp[0],) if trans else ()
        a = mon.call('acceptance_answers', alg.acceptance, [as_chain(r, y) for y in ys], l1, *args)
        det = dict(x=xs, y=ys, w=w, l0=l0, l1=l1, prior=pr, dc_prior=dcp, kinds=kinds)
        judge(mon, a, accept(lr, l1, l0), 'joint_acceptance_is_the_product_over_events', **det)
        for k in kinds:
            mon.event('joint_'+k)
        mon.case((np.array([x[k] for x in xs+ys for k in mcmc.KEYS]+[l0, l1]), pr, n), sample=det)


def step(alg, xs, w, dcs, l0, cands, ls, u, jump):
    """one iteration of the chain from a given state, for given tried proposals and scripted uniforms.
    Returns the index of the accepted candidate or None."""
    n = alg.number_events
    set_widths(alg, w)
    put(alg, xs, l0, dcs, jump)
    multi = len(cands)
    ev = [[c[e] for c in cands] for e in range(n)]
    if multi == 1 and not getattr(alg, '_vpm_list', False):
        alg.xi_1 = [dict(v[0]) for v in ev] if n > 1 else dict(ev[0][0])
    else:
        alg.xi_1 = [[dict(y) for y in v] for v in ev] if n > 1 else [dict(y) for y in ev[0]]
    res = {'ln_pdf': np.array([ls], dtype=float), 'moment_tensors': None, 'n': multi}
    if u is None:
        alg.iterate(res)
    else:
        with Rand(u):
            alg.iterate(res)
    now = alg.xi if n > 1 else [alg.xi]
    last = max([-1]+[i for i, c in enumerate(cands) if all(mcmc.f(now[e][k]) == mcmc.f(c[e][k]) for e in range(n) for k in mcmc.KEYS)])
    for i, c in enumerate(cands):
        if all(abs(mcmc.f(now[e][k])-mcmc.f(c[e][k])) == 0 for e in range(n) for k in mcmc.KEYS):
            same = all(abs(mcmc.f(xs[e][k])-mcmc.f(c[e][k])) == 0 for e in range(n) for k in mcmc.KEYS)
            if not same and (ls[i] == alg.ln_likelihood_xi or i == last):
                return i
    return None


def decision(mon):
    """what the chain does with a proposal, at either side of the oracle's acceptance"""
    gc.collect(); gc.freeze()
    r = mon.rng
    compiled = mon.flavour != 'py'
    pool = []
    for pr in PRIORS:
        for n in (1, 2, 3):
            for tries in (0, 12):
                if tries and not compiled:
                    pass
                for trans, dc in ((False, False), (False, True), (True, False)):
                    dcp = float(r.uniform(.05, .95))
                    kw = dict(dc_prior=dcp) if trans else {}
                    alg = make(n, trans=trans, dc=dc, tries=tries, sampling_prior=pr, **kw)
                    # compiled multiple-try chains hold lists of tried proposals
                    alg._vpm_list = bool(tries and compiled)
                    alg.initialise()
                    pool.append([alg, pr, n, trans, dc, dcp, None])
    for i in range(mon.n(2600, 26000)):
        ent = pool[i % len(pool)]
        alg, pr, n, trans, dcc, dcp, scripted = ent
        dcs = [True if dcc else bool(trans and r.random() < .5) for _ in range(n)]
        w = scene(r, n, trans, pr, dcs, dcp)
        xs = [state(r, d) for d in dcs]
        sane(r, xs, w, trans)
        m = int(r.integers(1, 6)) if alg._vpm_list else 1
        l0 = float(r.normal()*30)
        cands, ls, acc, kinds = [], [], [], []
        for j in range(m):
            ys, lr, kk = candidate(r, xs, w, trans, dcs, pr, [dcp]*n)
            p = r.random()
            if p < .12:
                l1 = -INF
            elif p < .25:
                l1 = l0-lr+float(r.uniform(.001, 5))
            elif p < .3:
                l1 = 0. if r.random() < .5 else l0
            else:
                l1 = l0-lr+math.log(r.uniform(.02, .98))
            a = accept(lr, l1, l0)
            if math.isnan(a) or not math.isfinite(lr):
                l1, a = -INF, 0.
            cands.append(ys); ls.append(l1); acc.append(a); kinds.append(kk)
        jump = any(k != 'shift' for k in kinds[0])
        det = dict(x=xs, cands=cands, ls=ls, l0=l0, acc=acc, w=w, prior=pr, dc_prior=dcp, kinds=kinds, events=n, trans=trans)
        if scripted is None:
            # does this chain decide with numpy.random.rand?
            ok = True
            ys, lr, kk = candidate(r, xs, w, trans, dcs, pr, [dcp]*n)
            if math.isfinite(lr):
                for u, want in [(1e-12, 0), (1-1e-12, None)]*8:
                    got = step(alg, xs, w, dcs, l0, [ys], [l0-lr+math.log(.5)], u, any(k != 'shift' for k in kk))
                    ok = ok and got == want
                ent[6] = scripted = ok
                mon.event('scripted_chain' if ok else 'unscripted_chain')
            else:
                continue
        if scripted:
            us = set([1e-12, 1-1e-9])
            for a in acc:
                if 0 < a < 1:
                    us.update([a*(1-1e-6), min(1-1e-9, a*(1+1e-6))])
            us.add(float(r.random()))
            for u in us:
                if any(0 < a < 1 and abs(u-a) < 2e-7*a for a in acc):
                    continue
                want = next((j for j, a in enumerate(acc) if a > u), None)
                got = mon.call('iterate_answers', step, alg, xs, w, dcs, l0, cands, ls, u, jump)
                mon.check(got == want, 'decision_follows_the_metropolis_ratio', u=u, got=got, want=want, **det)
                mon.event('accepted' if want is not None else 'rejected')
                now = alg.ln_likelihood_xi
                mon.close(now, l0 if want is None else ls[want], 'state_carries_its_likelihood', rtol=0, u=u, **det)
        # a chain on a zero-likelihood start always moves; to a candidate of non-zero likelihood
        if r.random() < .35:
            for u in ([1e-12, 1-1e-9] if scripted else [None]*6):
                want = next((j for j, l in enumerate(ls) if l > -INF), None)
                got = mon.call('iterate_answers', step, alg, xs, w, dcs, -INF, cands, ls, u, jump)
                mon.check(got == want, 'zero_likelihood_start_always_moves', got=got, want=want, u=u, **det)
        if r.random() < .2:
            for u in ([0., 1e-12, .5] if scripted else [None]*4):
                got = mon.call('iterate_answers', step, alg, xs, w, dcs, l0, cands, [-INF]*m, u, jump)
                mon.check(got is None, 'zero_likelihood_never_accepted', got=got, u=u, **det)
        if not scripted or i % 97 == 0:
            # the chain's own random numbers
            j = int(r.integers(m))
            a = acc[j]
            if 0 < a < 1:
                def test(scale):
                    t = 150*scale
                    k = sum(step(alg, xs, w, dcs, l0, [cands[j]], [ls[j]], None, any(q != 'shift' for q in kinds[j])) is not None for _ in range(t))
                    return stats.binomtest(k, t, a).pvalue
                p_confirm(mon, 'accepted_as_often_as_the_ratio_says', test, **det)
        for kk in kinds:
            for k in kk:
                mon.event('proposal_'+k)
        mon.case((np.array([mcmc.f(x[k]) for x in xs for k in mcmc.KEYS]+ls+[l0]), pr, n, m), sample=det)


WORKLOADS = {
    'shift': dict(fn=shift, shards={'quick': 1, 'thorough': 3}, need={'shift_acceptance_is_the_metropolis_ratio': 5000, 'acceptance_between': 1000, 'detailed_balance_of_a_shift': 2000}),
    'jumps': dict(fn=jumps, shards={'quick': 1, 'thorough': 2}, need={'jump_to_the_full_tensor_acceptance': 2000, 'detailed_balance_of_a_jump': 1500}),
    'quadrature': dict(fn=quadrature, flavours=['c'], need={'balancing_density_integrates_to_one': 30}),
    'joint': dict(fn=joint, shards={'quick': 1, 'thorough': 3}, need={'joint_acceptance_is_the_product_over_events': 2000, 'joint_up': 100, 'joint_down': 100}),
    'decision': dict(fn=decision, shards={'quick': 2, 'thorough': 4}, need={'zero_likelihood_start_always_moves': 300, 'zero_likelihood_never_accepted': 300}, timeout={'quick': 300, 'thorough': 840}),
}

if __name__ == '__main__':
    harness.main('C05', __file__, WORKLOADS,
                 rule='one case = one pair of Tape states (or a joint state and its tried proposals) with widths, prior, model prior and ln likelihoods; non-trivial when the ratio is defined',
                 assumptions=['pairs whose proposal density underflows double precision (more than ~20 widths apart) are never proposed and are left out',
                              'an exact (gamma, delta) = (0, 0) is read as the double-couple model',
                              'the crack+double-couple parameterisation and the reflect_* options are outside the quantifier'])
