"""Common driver: builds the flavours, runs the monitored workloads in worker processes,
collects what the monitors saw, writes the evidence file and gives the verdict.

exit 0 held on everything observed; exit 1 + VIOLATION line; exit 2 inconclusive (a deciding
monitor was never reached, a worker died for a reason that is not the code under test, ...).
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def _jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth+1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v, depth+1) for v in list(x)[:40]]
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {'shape': list(x.shape), 'head': _jsonable(np.asarray(x).flatten()[:24].tolist())}
        return _jsonable(np.asarray(x).tolist(), depth+1)
    if isinstance(x, (np.floating, float)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:300]


class CodeRaised(Exception):
    """The code under test raised on an input it has to accept."""


class Mon(object):
    """The monitor a workload reports to."""
    MAXV = 4

    def __init__(self, prop, workload, flavour, shard, seed, tier):
        import numpy as np
        self.prop, self.workload, self.flavour, self.shard, self.seed, self.tier = prop, workload, flavour, shard, seed, tier
        h = int(hashlib.sha256(('%s/%s/%d' % (prop, workload, shard)).encode()).hexdigest()[:8], 16)
        # the flavour is not in the seed: the same inputs reach every flavour
        self.rng = np.random.default_rng([seed, h])
        np.random.seed((seed*1000003+h) % (2**32))
        import random
        random.seed(seed*7919+h)
        self.rules, self.events, self.violations, self.known = {}, {}, {}, {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.notes = []

    # -- sizes
    def n(self, quick, thorough=None):
        if self.tier == 'thorough':
            return thorough if thorough is not None else quick*8
        return quick

    # -- observations
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0)+int(n)

    def case(self, key, nontrivial=True, sample=None):
        """One generated input / execution. key identifies it (hashed)."""
        self.evaluations += 1
        if nontrivial:
            if not isinstance(key, (str, bytes)):
                try:
                    import numpy as np
                    key = b'|'.join(np.ascontiguousarray(k).tobytes() if isinstance(k, np.ndarray) else repr(k).encode() for k in (key if isinstance(key, (tuple, list)) else [key]))
                except Exception:
                    key = repr(key)
            if isinstance(key, str):
                key = key.encode()
            self.distinct.add(hashlib.blake2b(self.workload.encode()+key, digest_size=8).hexdigest())
        if sample is not None and len(self.samples) < 3:
            self.samples.append(_jsonable(sample))

    def cases(self, arr, axis=1):
        """A batch of cases, one per column (axis=1) or row (axis=0)."""
        import numpy as np
        a = np.asarray(arr, dtype=float)
        if a.ndim == 1:
            a = a[None, :] if axis == 1 else a[:, None]
        if axis == 1:
            a = a.T
        for row in a:
            self.evaluations += 1
            self.distinct.add(hashlib.blake2b(self.workload.encode()+np.ascontiguousarray(row).tobytes(), digest_size=8).hexdigest())

    def fail(self, rule, detail, kf=None):
        if kf:
            k = self.known.setdefault(kf, {'count': 0, 'witness': _jsonable(detail)})
            k['count'] += 1
            return
        v = self.violations.setdefault(rule, {'count': 0, 'witnesses': []})
        v['count'] += 1
        if len(v['witnesses']) < self.MAXV:
            v['witnesses'].append(_jsonable(detail))

    def check(self, cond, rule, /, kf=None, n=1, **detail):
        self.rules[rule] = self.rules.get(rule, 0)+int(n)
        if not bool(cond):
            self.fail(rule, detail, kf)
            return False
        return True

    def close(self, got, want, rule, /, rtol=1e-9, atol=0., kf=None, **detail):
        """Elementwise |got-want| <= atol + rtol*|want|, infinities equal, NaN never."""
        import numpy as np
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            return self.check(False, rule, kf, **dict(detail, got=repr(got)[:300], want=want, error=repr(e)))
        if g.shape != w.shape:
            if g.size == w.size:
                g = g.reshape(w.shape)
            else:
                return self.check(False, rule, kf, **dict(detail, got_shape=g.shape, want_shape=w.shape, got=g, want=w))
        with np.errstate(all='ignore'):
            ok = np.where(np.isfinite(w), np.abs(g-w) <= atol+rtol*np.abs(w), g == w)
        good = bool(np.all(ok))
        if good:
            return self.check(True, rule, kf, n=max(1, w.size))
        i = np.argwhere(~np.atleast_1d(ok))
        detail.pop('n', None)
        return self.check(False, rule, kf, max(1, w.size), **dict(detail, first_bad_index=i[0].tolist(), n_bad=len(i),
                          got=np.atleast_1d(g)[tuple(i[0])], want=np.atleast_1d(w)[tuple(i[0])]))

    def call(self, rule, f, *a, **k):
        """Call the code under test on an input it has to accept; an exception is a violation."""
        kf = k.pop('_kf', None)
        try:
            return f(*a, **k)
        except Exception as e:
            tb = traceback.format_exc()
            self.check(False, rule, kf, exception=repr(e), traceback=tb[-1500:], args=[_jsonable(x) for x in a], kwargs=_jsonable(k))
            raise CodeRaised(rule)

    def report(self):
        return dict(workload=self.workload, flavour=self.flavour, shard=self.shard, rules=self.rules, events=self.events,
                    violations=self.violations, known=self.known, evaluations=self.evaluations,
                    distinct=sorted(self.distinct), samples=self.samples, notes=self.notes)


def p_confirm(mon, rule, test, first=1e-4, second=1e-6, kf=None, **detail):
    """Statistical monitor in two stages. test(scale) -> p-value of a fresh sample.
    Alarm only when a first sample is suspicious and an independent, larger one is damning:
    false-alarm probability first*second."""
    p1 = test(1)
    if p1 >= first:
        return mon.check(True, rule)
    p2 = test(4)
    return mon.check(p2 >= second, rule, kf, **dict(detail, p_first=p1, p_second=p2))


def _worker(prop, workloads, argv):
    name, flavour, shard, out = argv[0], argv[1], int(argv[2]), argv[3]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import logging
    logging.disable(logging.CRITICAL)
    mon = Mon(prop, name, flavour, shard, seed, tier)
    status = 'ok'
    err = ''
    try:
        import MTfit
        base = os.path.realpath(os.environ['PYTHONPATH'].split(os.pathsep)[0])
        assert os.path.realpath(MTfit.__file__).startswith(base+os.sep), MTfit.__file__
        from MTfit.probability import probability as _p
        want = flavour != 'py'
        if bool(_p.cprobability) != want:
            raise RuntimeError('flavour %s but cprobability=%r' % (flavour, _p.cprobability))
        workloads[name]['fn'](mon)
    except CodeRaised:
        pass
    except Exception as e:
        err = traceback.format_exc()
        tb = sys.exc_info()[2]
        last = None
        while tb is not None:
            last = tb.tb_frame.f_code.co_filename
            if os.sep+'MTfit'+os.sep in last and '/vpm_' in last:
                status = 'code'
            tb = tb.tb_next
        if status == 'ok':
            status = 'harness'
        if isinstance(e, (MemoryError, ImportError, OSError)):
            status = 'harness'
        elif status == 'harness' and len(mon.rules) and isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError, AssertionError)):
            # the oracle, which reads every result of the unchanged code, cannot make sense of this one
            status = 'uninterpretable'
        if status == 'code':
            mon.check(False, 'no_unexpected_exception', exception=repr(e), traceback=err[-2500:])
    rep = mon.report()
    rep['status'] = status
    rep['error'] = err[-3000:]
    with open(out+'.tmp', 'w') as f:
        json.dump(rep, f)
    os.rename(out+'.tmp', out)
    sys.stdout.flush()
    os._exit(0)


def known_for(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known:\s+property=(\S+)\s+id=(\S+)\s+(.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main(prop, script, workloads, rule, level='exploration', assumptions=(), flavours=None, default_timeout=600):
    """workloads: name -> dict(fn=..., flavours=[...], shards={'quick':1,'thorough':4}, timeout=s,
    need={rule_or_event: minimum}, hang='violation'|'inconclusive')"""
    script = os.path.abspath(script)
    if len(sys.argv) > 1 and sys.argv[1] == '--worker':
        return _worker(prop, workloads, sys.argv[2:])
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier')+1]
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only')+1].split(',')
    onlyf = None
    if '--flavour' in sys.argv:
        onlyf = sys.argv[sys.argv.index('--flavour')+1].split(',')
    if '--replay' in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index('--replay')+1]))
        seed = rp['seed']
        os.environ['VERIF_SEED'] = str(seed)
        tier = os.environ['VERIF_TIER'] = rp['tier']
        only, onlyf = [rp['workload']], [rp['flavour']]
    os.environ['VERIF_SEED'] = str(seed)
    from vpm.flavour import Builder, PY
    b = Builder()
    jobs = []
    for name, w in workloads.items():
        if only and name not in only:
            continue
        if tier not in w.get('tiers', ('quick', 'thorough')):
            continue
        for fl in w.get('flavours', ['py', 'c']):
            if onlyf and fl not in onlyf:
                continue
            for s in range(w.get('shards', {}).get(tier, 1)):
                jobs.append((name, fl, s, w))
    rc = 2
    try:
        try:
            # 'peers': trees a workload runs next to its own
            b.build(sorted(set(j[1] for j in jobs) | set(x for j in jobs for x in j[3].get('peers', []))))
        except Exception as e:
            print('INCONCLUSIVE property=%s cannot build: %s' % (prop, e))
            return _exit(b, 2)
        tbuild = time.time()-t0
        reps, problems = _run_jobs(prop, script, b, jobs, tier, default_timeout)
        rc = _verdict(prop, tier, seed, level, rule, assumptions, workloads, jobs, reps, problems, t0, tbuild, bool(only or onlyf))
    finally:
        b.close()
    sys.stdout.flush()
    os._exit(rc)


def _exit(b, rc):
    b.close()
    sys.stdout.flush()
    os._exit(rc)


def _run_jobs(prop, script, b, jobs, tier, default_timeout):
    from vpm.flavour import PY
    ncpu = int(os.environ.get('VPM_JOBS', '8'))
    pending = sorted(jobs, key=lambda j: -j[3].get('weight', 1))
    running, reps, problems = [], [], []
    k = 0
    while pending or running:
        while pending and sum(r['slots'] for r in running) + min(ncpu, pending[0][3].get('slots', 1)) <= ncpu:
            name, fl, s, w = pending.pop(0)
            k += 1
            wd = os.path.join(b.root, 'w%03d' % k)
            os.makedirs(wd)
            out = os.path.join(wd, 'report.json')
            env = b.env(fl)
            env['VPM_WORK'] = wd
            env['TMPDIR'] = wd
            log = open(os.path.join(wd, 'log'), 'wb')
            p = subprocess.Popen([PY, '-W', 'ignore', script, '--worker', name, fl, str(s), out], cwd=wd, env=env, stdout=log, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            t = w.get('timeout', default_timeout)
            if isinstance(t, dict):
                t = t[tier]
            running.append(dict(p=p, name=name, fl=fl, s=s, w=w, out=out, log=log.name, t0=time.time(), limit=t, slots=min(ncpu, w.get('slots', 1))))
        time.sleep(0.05)
        for r in list(running):
            rcp = r['p'].poll()
            late = rcp is None and time.time()-r['t0'] > r['limit']
            if rcp is None and not late:
                continue
            running.remove(r)
            try:
                os.killpg(r['p'].pid, signal.SIGKILL)
            except Exception:
                pass
            r['p'].wait()
            tail = open(r['log'], 'rb').read()[-6000:].decode('utf8', 'replace')
            r['secs'] = time.time()-r['t0']
            if os.path.exists(r['out']):
                rep = json.load(open(r['out']))
                rep['secs'] = r['secs']
                rep['log'] = tail[-1500:]
                reps.append(rep)
                continue
            base = dict(workload=r['name'], flavour=r['fl'], shard=r['s'], log=tail)
            if late:
                base['what'] = 'no answer within %ds' % r['limit']
                base['verdict'] = r['w'].get('hang', 'inconclusive')
            elif rcp < 0 and -rcp in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
                base['what'] = 'the worker was ended by signal %d while running the code under test' % -rcp
                base['verdict'] = 'violation'
            elif 'AddressSanitizer' in tail or 'runtime error:' in tail:
                base['what'] = 'sanitizer report'
                base['verdict'] = 'violation'
            else:
                base['what'] = 'worker ended with %r and no report' % rcp
                base['verdict'] = 'inconclusive'
            problems.append(base)
    return reps, problems


def _verdict(prop, tier, seed, level, rule, assumptions, workloads, jobs, reps, problems, t0, tbuild, partial):
    rules, events, per, distinct, samples, known = {}, {}, {}, set(), [], {}
    evals = 0
    viol = []
    inconclusive = []
    for r in reps:
        key = '%s/%s' % (r['workload'], r['flavour'])
        d = per.setdefault(key, {'evaluations': 0, 'rules': {}, 'events': {}, 'secs': 0})
        d['evaluations'] += r['evaluations']
        d['secs'] = round(d['secs']+r['secs'], 1)
        evals += r['evaluations']
        distinct.update(x+r['flavour'] for x in r['distinct'])
        for n, c in r['rules'].items():
            d['rules'][n] = d['rules'].get(n, 0)+c
            rules[n] = rules.get(n, 0)+c
        for n, c in r['events'].items():
            d['events'][n] = d['events'].get(n, 0)+c
            events[n] = events.get(n, 0)+c
        for s in r['samples'][:1]:
            if len(samples) < 12:
                samples.append({'workload': key, 'case': s})
        for n, v in r['violations'].items():
            viol.append(dict(workload=r['workload'], flavour=r['flavour'], shard=r['shard'], rule=n, count=v['count'], witnesses=v['witnesses']))
        for n, v in r['known'].items():
            k = known.setdefault(n, {'count': 0, 'witness': v['witness'], 'where': []})
            k['count'] += v['count']
            k['where'].append(key)
            k['seen_by'] = dict(workload=r['workload'], flavour=r['flavour'], shard=r['shard'])
        if r['status'] == 'uninterpretable':
            viol.append(dict(workload=r['workload'], flavour=r['flavour'], shard=r['shard'], rule='result_not_interpretable', count=1, witnesses=[r['error']]))
        if r['status'] == 'harness':
            inconclusive.append('%s: the harness failed: %s' % (key, r['error']))
    listed = known_for(prop)
    for n, v in known.items():
        if n not in listed:
            viol.append(dict(rule='unlisted:'+n, count=v['count'], witnesses=[v['witness']], **v['seen_by']))
    for p in problems:
        if p['verdict'] == 'violation':
            viol.append(dict(workload=p['workload'], flavour=p['flavour'], shard=p['shard'], rule='crash_or_hang', count=1, witnesses=[p['what'], p['log']]))
        else:
            inconclusive.append('%s/%s: %s\n%s' % (p['workload'], p['flavour'], p['what'], p['log'][-1500:]))
    done = set((r['workload'], r['flavour']) for r in reps)
    for name, fl, s, w in jobs:
        if (name, fl) in done:
            d = per['%s/%s' % (name, fl)]
            for k, m in w.get('need', {}).items():
                got = d['rules'].get(k, d['events'].get(k, 0))
                if got < m:
                    inconclusive.append('%s/%s: monitor %s saw %d events, needs %d' % (name, fl, k, got, m))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': rule,
                       'samples': samples or ['none'], 'monitor_decisions': rules, 'events': events, 'per_workload': per,
                       'known_findings_seen': {k: v['count'] for k, v in known.items()}, 'build_s': round(tbuild, 1)},
          'assumptions': list(assumptions), 'wall_s': round(time.time()-t0, 2), 'violations': len(viol)}
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    name = prop if not partial else prop+'.partial'
    json.dump(ev, open(os.path.join(evdir, name+'.json'), 'w'), indent=1)
    for k in sorted(known):
        if k in listed:
            print('KNOWN-FINDING: property=%s id=%s %s (seen %d times)' % (prop, k, listed[k], known[k]['count']))
    rc = 0
    if viol:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in viol:
            path = os.path.join(rdir, '%s-%s-%s-%s.json' % (prop, v['workload'], v['flavour'], re.sub(r'\W+', '_', v['rule'])))
            json.dump(dict(property=prop, seed=seed, tier=tier, **v), open(path, 'w'), indent=1)
            if (v['workload'], v['rule'], v['flavour']) in seen:
                continue
            seen.add((v['workload'], v['rule'], v['flavour']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  rule=%s workload=%s flavour=%s count=%d witness=%s' % (v['rule'], v['workload'], v['flavour'], v['count'], json.dumps(v['witnesses'][:1])[:1200]))
        rc = 1
    if inconclusive:
        for i in inconclusive:
            print('INCONCLUSIVE property=%s %s' % (prop, i))
        if rc == 0:
            rc = 2
    print('%s %s tier=%s seed=%d evaluations=%d distinct=%d decisions=%d wall=%.1fs (build %.1fs)' % (
        prop, {0: 'HELD', 1: 'VIOLATED', 2: 'INCONCLUSIVE'}[rc], tier, seed, evals, len(distinct), sum(rules.values()), time.time()-t0, tbuild))
    return rc
