"""C02: YAML configurations load to the values written, with lazy expressions over the live configuration."""
import copy
import os
import tempfile

import numpy as np
import yaml
from falco import config
from rv.core import rng_of

RULE = ('random nested documents with literals, lists, probe tags and a random dependency graph of lazy expressions, then random '
        'reassignments, deep copies, cycles and failing expressions; distinct = (graph depth, features used)')


def cases(tier, seed):
    n = 40 if tier == 'quick' else 500
    return [dict(kind=k, i=i, seed=seed) for i in range(n) for k in ('graph', 'isolate')]


def run_case(case, mon):
    r = rng_of(case)
    if case['kind'] == 'graph':
        n = int(r.integers(3, 10))
        sect = [('' if r.random() < 0.5 else 's%d' % r.integers(3)) for _ in range(n)]
        vals, deps, consts = {}, {}, {}
        lines = {}
        order = [int(v) for v in r.permutation(n)]
        for pos, i in enumerate(order):
            avail = order[:pos]
            c = int(r.integers(1, 50))
            consts[i] = c
            if not avail or r.random() < 0.35:
                deps[i] = []
                lines[i] = '%d' % c
            else:
                d = [int(v) for v in r.choice(avail, min(len(avail), int(r.integers(1, 4))), replace=False)]
                deps[i] = d
                ref = ' + '.join('mp.%sv%d' % (sect[j] + '.' if sect[j] else '', j) for j in d)
                lines[i] = '!eval %s + %d + np.size(extra)' % (ref, c)

        def expected():
            out = {}
            for i in order:
                out[i] = vals[i] if i in vals else (consts[i] + (3 if deps[i] else 0) + sum(out[j] for j in deps[i]))
            return out
        doc = ''
        for s in sorted(set(sect)):
            ind = ''
            if s:
                doc += s + ':\n'
                ind = '    '
            for i in range(n):
                if sect[i] == s:
                    doc += '%sv%d: %s\n' % (ind, i, lines[i])
        doc += 'pr: !Probe\n    Npairs: 7\n    yOffset: !eval mp.%sv0 * 2\n' % (sect[0] + '.' if sect[0] else '')
        doc += 'lst: [1, 2.5, abc, {k: 4}]\nflag: true\nnone: null\nexpr: 2+2\n'
        ctx = {'extra': [1, 2, 3]}
        viafile = r.random() < 0.3
        if viafile:
            with tempfile.NamedTemporaryFile('w', suffix='.yaml', delete=False) as fh:
                fh.write(doc)
            mp = config.ModelParameters.from_yaml_file(fh.name, ctx)
            os.unlink(fh.name)
        else:
            mp = config.ModelParameters.from_yaml(doc, ctx)
        mon.check(set(ctx) == {'extra'}, 'context-mutated', "the caller's context dictionary was changed", keys=sorted(ctx))

        def get(m, i):
            o = getattr(m, sect[i]) if sect[i] else m
            return getattr(o, 'v%d' % i)

        def put(m, i, v, index):
            o = m[sect[i]] if sect[i] else m
            if index:
                o['v%d' % i] = v
            else:
                setattr(o, 'v%d' % i, v)

        def audit(m, exp, key):
            for i in r.permutation(n):
                mon.check(get(m, int(i)) == exp[int(i)], key, 'a configured value differs from the document/expression',
                          got=get(m, int(i)), want=exp[int(i)])
        audit(mp, expected(), 'value')
        mon.check(isinstance(mp.pr, config.Probe) and mp.pr.Npairs == 7 and mp.pr.radius == 12
                  and mp.pr.yOffset == 2*expected()[0], 'probe-tag', 'tagged probe section')
        mon.check(mp.lst[:3] == [1, 2.5, 'abc'] and mp.lst[3].k == 4 and mp.flag is True and mp.none is None
                  and mp.expr == '2+2', 'literal', 'literal values')
        cp = copy.deepcopy(mp)
        before = expected()
        for _ in range(int(r.integers(1, 4))):
            i = int(r.integers(n))
            v = int(r.integers(1000))
            vals[i] = v
            put(mp, i, v, r.random() < 0.5)
            audit(mp, expected(), 'value-after-write')
        audit(cp, before, 'copy-independent')
        i = int(r.integers(n))
        put(cp, i, 5, False)
        audit(mp, expected(), 'original-independent')
        vals.clear()
        vals[i] = 5
        audit(cp, expected(), 'copy-live')
        depth = {}
        for i in order:
            depth[i] = 1 + max([depth[j] for j in deps[i]], default=0)
        mon.seen(max(depth.values()), viafile, len(set(sect)))
        mon.sample(doc=doc.splitlines()[:6])
    else:
        ctx = {'k': int(r.integers(1, 9))}
        b1, b2 = (int(v) for v in r.integers(1, 1000, 2))
        m1 = config.ModelParameters.from_yaml('a: !eval mp.b*k\nb: %d\nsub:\n  c: !eval mp.a+1' % b1, ctx)
        m2 = config.ModelParameters.from_yaml('a: !eval mp.b\nb: %d\n' % b2, ctx)
        mon.check(m1.a == b1*ctx['k'] and m1.sub.c == m1.a + 1, 'isolation', 'loading a second document changed the first', got=m1.a, want=b1*ctx['k'])
        mon.check(m2.a == b2, 'isolation', 'second document')
        plain = yaml.safe_load('q: {z: 1}')
        mon.check(type(plain) is dict and type(plain['q']) is dict, 'yaml-global', 'loading a configuration changes how other YAML is parsed')
        mon.raises(yaml.YAMLError, lambda: yaml.safe_load('q: !eval 1+1'), 'yaml-eval-leak', 'plain YAML loading accepts code')
        # cycles of random length are detected every time and are curable
        L = int(r.integers(1, 6))
        m3 = config.ModelParameters.from_yaml('\n'.join('c%d: !eval mp.c%d + 1' % (i, (i+1) % L) for i in range(L)))
        for _ in range(3):
            mon.raises(ValueError, lambda: getattr(m3, 'c%d' % r.integers(L)), 'cycle', 'a circular definition is not reported as such', L=L)
        j = int(r.integers(L))
        setattr(m3, 'c%d' % j, 10)
        for d in range(1, L):
            mon.check(getattr(m3, 'c%d' % ((j-d) % L)) == 10+d, 'cycle-cured', 'breaking the cycle does not restore evaluation')
        # a failing expression fails the same way every time, and works once its input exists
        m4 = config.ModelParameters.from_yaml('e: !eval 10/mp.zero\nzero: 0')
        for _ in range(2):
            mon.raises(ZeroDivisionError, lambda: m4.e, 'failing-expression', 'error of an expression')
        m4.zero = 5
        mon.check(m4.e == 2, 'failing-expression-cured', 'expression stays broken')
        mon.raises(AttributeError, lambda: m4.nothere, 'missing', 'missing name')
        v = config.ModelParameters.from_yaml('m: !eval np.arange(4.)*math.pi\ni: !eval falco.INFLUENCE_BMC_2K')
        mon.close(v.m, np.arange(4)*np.pi, 'expression-libs', 'numpy/math in expressions')
        mon.check(isinstance(v.i, str), 'expression-libs', 'falco in expressions')
        # several falco objects per probe section stay separate
        p = config.ModelParameters.from_yaml('p1: !Probe {Npairs: 1}\np2: !Probe {}\ns: !ProbeSchedule {xOffsetVec: [1, 2]}')
        p.p1.radius = 3
        mon.check(p.p2.radius == 12 and p.p2.Npairs == 3 and p.s.xOffsetVec == [1, 2] and p.s.rotationVec is None, 'tags-separate', 'tagged sections share state')
        mon.seen('isolate', L)
