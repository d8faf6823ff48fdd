"""C01: configuration objects behave as one mapping under every access style."""
import copy
import pickle

import numpy as np
from falco import config
from rv.core import rng_of

RULE = ('random histories of attribute writes, index writes, merges, deep copies, pickles, and lazy expressions on plain, probe, '
        'schedule, model-variable and model-parameter objects, checked after every step against a plain dictionary model; '
        'distinct = (class, operation bigrams exercised)')


def cases(tier, seed):
    n = 60 if tier == 'quick' else 1000
    return [dict(kind='history', i=i, seed=seed) for i in range(n)] + \
        [dict(kind='defaults', i=i, seed=seed) for i in range(n//3)] + \
        [dict(kind='lazycopy', i=i, seed=seed) for i in range(n//3)]


KEYS = ['a', 'b', 'c', 'Nbeam', 'whichDM', 'sbpIndex', 'x_offset', 'radius', 'dm_ind']
DEFAULTS = {
    'Probe': dict(Npairs=3, whichDM=1, xOffset=0, yOffset=0, rotation=0, gainFudge=1, radius=12, axis='alternate',
                  width=12, xiOffset=6, height=24, etaOffset=0),
    'ModelVariables': dict(sbpIndex=0, wpsbpIndex=0, starIndex=0, zernIndex=1, whichSource='star', x_offset=0, y_offset=0),
    'ProbeSchedule': dict(xOffsetVec=None, yOffsetVec=None, rotationVec=None, InormProbeVec=None),
    'Object': {},
}


def val(r):
    k = int(r.integers(6))
    return [lambda: int(r.integers(100)), lambda: float(r.normal()), lambda: 's%d' % r.integers(9),
            lambda: [int(v) for v in r.integers(9, size=3)], lambda: r.normal(size=3), lambda: None][k]()


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def compare(mon, o, model, key, what):
    for k, v in model.items():
        ok = True
        try:
            ok = same(getattr(o, k), v)
        except AttributeError:
            ok = False
        mon.check(ok, key + '-attr', 'attribute access does not give the value last assigned after ' + what, name=k)
        try:
            ok = same(o[k], v)
        except (AttributeError, KeyError):
            ok = False
        mon.check(ok, key + '-index', 'index access does not give the value last assigned after ' + what, name=k)
        mon.check(hasattr(o, k), key + '-hasattr', 'an assigned name is reported missing')
    for k in KEYS:
        if k not in model:
            mon.check(not hasattr(o, k), key + '-phantom', 'a name never assigned is present', name=k)


def run_case(case, mon):
    r = rng_of(case)
    cls = ['Object', 'Probe', 'ModelVariables', 'ProbeSchedule'][int(r.integers(4))]
    C = getattr(config, cls)
    if case['kind'] == 'defaults':
        kw = {str(k): val(r) for k in r.choice(KEYS, 3, replace=False)}
        o = C(**kw)
        model = dict(DEFAULTS[cls])
        model.update(kw)
        compare(mon, o, model, 'ctor', 'construction')
        fresh = C()
        compare(mon, fresh, DEFAULTS[cls], 'fresh', 'construction of a later instance')
        mp = config.ModelParameters(**{k: v for k, v in kw.items()})
        compare(mon, mp, kw, 'mp', 'construction of model parameters')
        mon.check(mp.dm1 is mp['dm1'] and mp.Fend['FOV'] == mp.Fend.FOV == 11, 'mp-default-section', 'default sections')
        m2 = config.ModelParameters()
        mp.P1.full.Nbeam = 77
        mon.check(m2.P1.full.Nbeam != 77 and mp.P1.full['Nbeam'] == 77, 'mp-shared', 'two parameter objects share state')
        mon.seen('defaults', cls, tuple(sorted(kw)))
        return
    if case['kind'] == 'lazycopy':
        # expressions over the object itself: a copy must follow its own values, nested sections included
        o = config.ModelParameters() if r.random() < 0.5 else C()
        o.q = int(r.integers(100))
        o.sub = config.Object(w=int(r.integers(100)), L=[1, 2])
        o['lz'] = config.Eval({}, {'mp': o}, '3*mp.q + mp.sub.w')
        o.sub['lz'] = config.Eval({}, {'mp': o}, 'mp.q - 1')
        c = copy.deepcopy(o)
        if r.random() < 0.5:
            c = copy.deepcopy(c)
        q0, w0 = o.q, o.sub.w
        for a in ('same', 'copy', 'orig'):
            if a == 'copy':
                c.q, c.sub.w = int(r.integers(200, 300)), int(r.integers(200, 300))
                c.sub.L.append(3)
            if a == 'orig':
                o.q = q0 = int(r.integers(400, 500))
            mon.check(o.lz == 3*q0 + w0 and o.sub.lz == q0 - 1 and o['lz'] == o.lz, 'lazy-original',
                      'expression of the original does not follow the original', step=a)
            mon.check(c.lz == 3*c.q + c.sub.w and c.sub.lz == c.q - 1 and c['lz'] == c.lz, 'lazy-copy',
                      'expression of a deep copy does not follow the copy', step=a)
            mon.check(o.sub.L == [1, 2], 'lazy-shared', 'a deep copy shares a nested list', step=a)
        mon.seen('lazycopy', cls)
        return
    # the random history
    model = dict(DEFAULTS[cls])
    o = C()
    ops = []
    scope = {}
    lazies = set()
    for step in range(int(r.integers(3, 14))):
        op = ['attr', 'index', 'merge', 'copy', 'pickle', 'lazy', 'scopechg'][int(r.choice(7, p=[.25, .25, .15, .1, .1, .1, .05]))]
        k = str(r.choice(KEYS))
        v = val(r)
        if op == 'pickle' and lazies:
            op = 'attr'
        if op == 'attr':
            setattr(o, k, v)
            model[k] = v
            lazies.discard(k)
        elif op == 'index':
            o[k] = v
            model[k] = v
            lazies.discard(k)
        elif op == 'merge':
            if isinstance(v, list) or isinstance(model.get(k), (list, np.ndarray)) or k in lazies:
                v = 5
                setattr(o, k, 4)
                lazies.discard(k)
            o.merge(**{k: v})
            model[k] = v
        elif op in ('copy', 'pickle'):
            o2 = copy.deepcopy(o) if op == 'copy' else pickle.loads(pickle.dumps(o))
            mon.check(type(o2) is type(o), op + '-type', 'copy changes the class')
            compare(mon, o2, model, op, op)
            # writing to the copy must not reach the original
            for kk in list(model)[:3]:
                if isinstance(model[kk], np.ndarray):
                    getattr(o2, kk)[0] = 1e9
                elif isinstance(model[kk], list):
                    getattr(o2, kk).append(1)
                else:
                    setattr(o2, kk, 'overwritten')
            compare(mon, o, model, op + '-independent', 'writing to a ' + op)
        elif op == 'lazy':
            scope['q'] = int(r.integers(50))
            o[k] = config.Eval({}, scope, 'q*2+1')
            lazies.add(k)
            model[k] = scope['q']*2+1
        else:
            scope['q'] = int(r.integers(50))
        for kk in lazies:
            model[kk] = scope['q']*2+1
        compare(mon, o, model, 'history', 'a ' + op)
        ops.append(op)
        if len(ops) > 1:
            mon.seen(cls, ops[-2], ops[-1])
    mon.sample(cls=cls, ops=ops, names=sorted(model))
