"""Runtime-monitoring core: the monitor object a workload reports to, and the
driver which runs a check's cases in forked workers and turns what the monitors
saw into a verdict, an evidence file and a replay file."""
import hashlib
import importlib
import json
import math
import multiprocessing as mproc
import os
import signal
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get('RV_REPO', '/repo')
HOME = os.environ.get('RV_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SCRATCH = os.environ.get('RV_SCRATCH', '/tmp')
CASE_LIMIT_S = 420  # a case that normally takes seconds and is still running is a hang


class Skip(Exception):
    """Raised by a workload whose generated input turned out not to be valid."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 12:
            return 'array%s' % (x.shape,)
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (complex, np.complexfloating)):
        return str(complex(x))
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if x is None or isinstance(x, (str, int, bool)):
        return x
    return repr(x)[:200]


class Monitor:
    """Collects what the oracles observed while one case ran."""

    def __init__(self, case):
        self.case = case
        self.evals = 0
        self.by_oracle = {}
        self.sigs = set()
        self.samples = []
        self.viol = {}
        self.resid = {}
        self.counts = {}

    # -- evidence ----------------------------------------------------------
    def seen(self, *sig):
        self.sigs.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    # -- oracles -----------------------------------------------------------
    def check(self, ok, key, msg='', **data):
        self.evals += 1
        self.by_oracle[key] = self.by_oracle.get(key, 0) + 1
        if not bool(ok):
            if key not in self.viol:
                self.viol[key] = {'msg': msg, 'data': jsonable(data), 'n': 0}
            self.viol[key]['n'] += 1
        return bool(ok)

    def close(self, a, b, key, msg='', rtol=1e-9, atol=0.0, scale=None, **data):
        """max|a-b| <= atol + rtol*scale, scale defaulting to max|b|."""
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            return self.check(False, key, msg + ' shape %s != %s' % (a.shape, b.shape), **data)
        if a.size == 0:
            return self.check(True, key, msg)
        with np.errstate(all='ignore'):
            d = np.abs(a - b)
            if scale is None:
                scale = float(np.max(np.abs(b)))
            lim = float(atol + rtol*float(scale))
            worst = float(np.max(d)) if np.all(np.isfinite(d)) else float('inf')
        rel = worst/lim if lim > 0 else (0.0 if worst == 0 else float('inf'))
        if rel > self.resid.get(key, -1):
            self.resid[key] = rel
        return self.check(worst <= lim, key, msg, worst=worst, limit=lim, **data)

    def equal(self, a, b, key, msg='', **data):
        a = np.asarray(a)
        b = np.asarray(b)
        ok = a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
        return self.check(ok, key, msg, **data)

    def raises(self, exc, fn, key, msg='', **data):
        try:
            fn()
        except exc:
            return self.check(True, key)
        except Exception as e:
            return self.check(False, key, msg + ' raised %r' % (e,), **data)
        return self.check(False, key, msg + ' did not raise', **data)

    def runs(self, fn, key, msg='', **data):
        """fn must complete on this (valid) input; returns (ok, value)."""
        try:
            v = fn()
        except Skip:
            raise
        except Exception as e:
            self.check(False, key, msg + ' raised %s: %s' % (type(e).__name__, e), tb=_tb(e), **data)
            return False, None
        self.check(True, key)
        return True, v


def _tb(e):
    return [('%s:%d %s' % (f.filename.replace(REPO + '/', ''), f.lineno, f.name))
            for f in traceback.extract_tb(e.__traceback__)][-6:]


def rng_of(case):
    s = json.dumps(case, sort_keys=True)
    return np.random.default_rng(int(hashlib.sha256(s.encode()).hexdigest()[:15], 16))


def run_one(mod, case):
    """Run one case; returns a JSON-able record."""
    mon = Monitor(case)
    err = None
    np.random.seed(int(hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:7], 16))
    try:
        mod.run_case(case, mon)
    except Skip:
        pass
    except Exception as e:
        fr = traceback.extract_tb(e.__traceback__)
        in_repo = [f for f in fr if f.filename.startswith(REPO + '/')]
        deepest_own = max([i for i, f in enumerate(fr) if f.filename.startswith(HOME + '/')], default=-1)
        deepest_repo = max([i for i, f in enumerate(fr) if f.filename.startswith(REPO + '/')], default=-1)
        if in_repo and deepest_repo > deepest_own:
            mon.check(False, 'exception:%s:%s' % (case.get('kind', ''), type(e).__name__),
                      'valid use raised %s: %s' % (type(e).__name__, e), tb=_tb(e))
        elif in_repo or isinstance(e, (AttributeError, KeyError, IndexError, ValueError, TypeError)):
            # the harness choked on what the code returned or left behind
            mon.check(False, 'unusable-result:%s:%s' % (case.get('kind', ''), type(e).__name__),
                      'monitor could not interpret the result: %s: %s' % (type(e).__name__, e), tb=_tb(e))
        else:
            err = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    return dict(case=case, evals=mon.evals, by=mon.by_oracle, sigs=sorted(mon.sigs), samples=mon.samples,
                viol=mon.viol, resid=mon.resid, counts=mon.counts, err=err)


def _worker(mod, cases, nxt, lock, path, wid, hb):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('RV_DEBUG'):
        os.dup2(devnull, 2)
    out = open(path, 'a')
    while True:
        with lock:
            i = nxt.value
            if i >= len(cases):
                break
            nxt.value = i + 1
            hb[2*wid] = float(i)
            hb[2*wid+1] = time.time()
        rec = run_one(mod, cases[i])
        rec['i'] = i
        out.write(json.dumps(rec) + '\n')
        out.flush()
    hb[2*wid] = -1.0
    out.close()
    os._exit(0)


def run_all(mod, cases, nproc):
    ctx = mproc.get_context('fork')
    nxt = ctx.Value('l', 0, lock=False)
    lock = ctx.Lock()
    nproc = max(1, min(nproc, len(cases)))
    hb = ctx.Array('d', 2*nproc, lock=False)
    path = os.path.join(SCRATCH, 'records')
    procs = []
    for w in range(nproc):
        hb[2*w] = -1.0
        p = ctx.Process(target=_worker, args=(mod, cases, nxt, lock, '%s.%d' % (path, w), w, hb))
        p.start()
        procs.append(p)
    extra = []
    alive = dict(enumerate(procs))
    while alive:
        for w, p in list(alive.items()):
            p.join(0.02)
            if p.exitcode is not None:
                del alive[w]
                if p.exitcode != 0 and hb[2*w] >= 0:
                    extra.append((int(hb[2*w]), 'crash', 'worker ended with exit code %s' % p.exitcode))
            elif hb[2*w] >= 0 and time.time() - hb[2*w+1] > CASE_LIMIT_S:
                extra.append((int(hb[2*w]), 'hang', 'case still running after %d s' % CASE_LIMIT_S))
                os.kill(p.pid, signal.SIGKILL)
                p.join()
                del alive[w]
    recs = []
    for w in range(nproc):
        f = '%s.%d' % (path, w)
        if os.path.exists(f):
            with open(f) as fh:
                recs += [json.loads(x) for x in fh if x.endswith('\n')]
    done = {r['i'] for r in recs}
    for i, kind, msg in extra:
        if i in done:
            continue
        recs.append(dict(i=i, case=cases[i], evals=1, by={kind: 1}, sigs=[], samples=[], resid={}, counts={}, err=None,
                         viol={'%s:%s' % (kind, cases[i].get('kind', '')): dict(msg=msg, data={}, n=1)}))
        done.add(i)
    missing = [i for i in range(len(cases)) if i not in done]
    recs.sort(key=lambda r: r['i'])
    return recs, missing


def known_findings(prop):
    """{key: text} of the listed findings of this property."""
    out = {}
    p = os.path.join(HOME, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                parts = ln[len('finding:'):].strip().split(None, 2)
                kv = dict(x.split('=', 1) for x in parts[:2])
                if kv.get('property') == prop:
                    out[kv['key']] = parts[2] if len(parts) > 2 else ''
    return out


def main(argv):
    t0 = time.time()
    prop, tier = argv[0], argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('rv.checks.%s' % prop.lower())
    if '--replay' in argv:
        with open(argv[argv.index('--replay')+1]) as fh:
            cases = json.load(fh)['cases']
    else:
        cases = mod.cases(tier, seed)
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    nproc = getattr(mod, 'NPROC', 8)
    recs, missing = run_all(mod, cases, nproc)

    evals = sum(r['evals'] for r in recs)
    by, resid, counts, sigs, samples, viol = {}, {}, {}, set(), [], {}
    errs = [r for r in recs if r['err']]
    for r in recs:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
        for k, v in r['resid'].items():
            resid[k] = max(resid.get(k, 0.0), v)
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        sigs |= set(r['sigs'])
        if len(samples) < 4:
            samples += r['samples'][:1]
        for k, v in r['viol'].items():
            viol.setdefault(k, []).append((r['case'], v))
    known = known_findings(prop)
    listed = {k: v for k, v in viol.items() if k in known}
    unlisted = {k: v for k, v in viol.items() if k not in known}

    os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=mod.RULE,
                            samples=samples or [jsonable(r['case']) for r in recs[:2]],
                            cases_run=len(recs), oracle_evaluations=dict(sorted(by.items())),
                            worst_residual_over_limit={k: float('%.3g' % v) for k, v in sorted(resid.items())
                                                       if math.isfinite(v)},
                            events=dict(sorted(counts.items()))),
              wall_s=round(time.time()-t0, 2),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              violations=len(unlisted))
    ev['coverage']['violation_kinds'] = [dict(key=k, msg=v[0][1]['msg'], cases=len(v), listed=(k in known))
                                         for k, v in sorted(viol.items())]
    with open(os.path.join(HOME, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write('\n')

    for k, v in sorted(listed.items()):
        print('KNOWN-FINDING: property=%s %s (%s; %d case(s))' % (prop, known[k], k, len(v)))
    rc = 0
    if unlisted:
        d = os.path.join(HOME, 'out', 'replay')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s-%s-%d.json' % (prop, tier, seed))
        with open(f, 'w') as fh:
            json.dump(dict(property=prop, tier=tier, seed=seed, cases=[v[0][0] for v in unlisted.values()],
                           found={k: dict(v[0][1], cases=len(v)) for k, v in unlisted.items()}), fh, indent=1)
        for k, v in sorted(unlisted.items()):
            print('  %s: %s [%d case(s)] %s' % (k, v[0][1]['msg'], len(v), json.dumps(v[0][1]['data'])[:600]))
            print('     case: %s' % json.dumps(v[0][0])[:300])
        print('VIOLATION property=%s replay=%s' % (prop, f))
        rc = 1
    elif errs or missing:
        for r in errs[:3]:
            print('HARNESS ERROR in case %s\n%s' % (r['case'], r['err']))
        if missing:
            print('HARNESS ERROR: %d case(s) produced no record' % len(missing))
        rc = 3
    elif evals == 0 or not sigs:
        print('HARNESS ERROR: the monitors observed nothing')
        rc = 3
    print('%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct, %d violation kind(s) (%d listed), %.1f s'
          % (prop, tier, seed, len(recs), evals, len(sigs), len(viol), len(listed), time.time()-t0))
    sys.stdout.flush()
    return rc
