"""U02: argument validators accept exactly the documented inputs."""
import numpy as np
from falco import check
from rv.core import rng_of

RULE = ('every validator against a pool of Python, NumPy and container values (scalars of all widths, signed zeros, infinities, '
        'bools, strings, nested lists, complex, masked sizes); distinct = (validator, value kind)')


class MyErr(Exception):
    pass


def pool(r):
    v = float(r.uniform(0.1, 10))
    n = int(r.integers(1, 50))
    out = []
    for s in (1, -1):
        out += [('real', s*v), ('int', s*n), ('npfloat', np.float64(s*v)), ('npfloat32', np.float32(s*v)), ('npint', np.int64(s*n)),
                ('npint32', np.int32(s*n)), ('npint8', np.int8(s*min(n, 100)))]
    out += [('uint', np.uint16(n)), ('zero', 0), ('zero', 0.0), ('zero', np.int64(0)), ('real', np.inf), ('real', -np.inf), ('real', 1e-300), ('real', -1e-300),
            ('cplx', complex(v, 1)), ('cplx', np.complex128(v+0j)), ('str', 'abc'), ('str', b'abc'), ('str', ''), ('none', None),
            ('npbool', np.bool_(True)), ('dict', {}), ('dict', {'a': 1}), ('set', {1, 2})]
    for sh in [(0,), (1,), (n,), (1, 1), (n, n), (2, 3), (0, 0), (2, 2, 2), (1, n, 2), (1, 1, 1, 1), ()]:
        a = r.normal(size=sh)
        out += [('arr', a), ('arrc', a + 1j*a), ('arri', np.ones(sh, int)), ('arrb', np.ones(sh, bool))]
        if sh != ():
            out.append(('lst', a.tolist()))
    out += [('strarr', np.array(['a', 'b'])), ('lst', [1, 2, 3]), ('lst', (1., 2.)), ('lst', [])]
    return out


def isnum(x):
    import numbers
    return isinstance(x, numbers.Number)


def real(x):
    return isnum(x) and not isinstance(x, (complex, np.complexfloating))


def isint(x):
    return isinstance(x, (int, np.integer))


def ndim(x):
    return np.asarray(x).ndim


SPEC = {
    'real_positive_scalar': lambda x: real(x) and x > 0,
    'real_nonnegative_scalar': lambda x: real(x) and x >= 0,
    'real_scalar': real,
    'positive_scalar_integer': lambda x: isint(x) and x > 0,
    'nonnegative_scalar_integer': lambda x: isint(x) and x >= 0,
    'scalar_integer': isint,
    'oneD_array': lambda x: ndim(x) == 1,
    'twoD_array': lambda x: ndim(x) == 2,
    'threeD_array': lambda x: ndim(x) == 3,
    'twoD_square_array': lambda x: ndim(x) == 2 and np.shape(x)[0] == np.shape(x)[1],
    'real_array': lambda x: ndim(x) >= 1 and np.asarray(x).dtype.kind in 'biuf',
    'string': lambda x: isinstance(x, (str, bytes)),
    'boolean': lambda x: isinstance(x, bool),
    'dictionary': lambda x: isinstance(x, dict),
}


def cases(tier, seed):
    n = 4 if tier == 'quick' else 60
    return [dict(kind=k, i=i, seed=seed) for i in range(n) for k in list(SPEC) + ['fixed', 'centering']]


def run_case(case, mon):
    r = rng_of(case)
    k = case['kind']
    vals = pool(r) + [('bool', True), ('bool', False)]
    if k == 'centering':
        for x in ('pixel', 'interpixel'):
            mon.check(check.centering(x) == x, 'centering-accept', 'valid centering')
        for x in ('', 'Pixel', 'pixels', 'inter'):
            mon.raises(ValueError, lambda: check.centering(x), 'centering-reject', 'invalid centering accepted')
        for x in (None, 1, b'pixel', ['pixel']):
            mon.raises(TypeError, lambda: check.centering(x), 'centering-reject', 'non-string centering accepted')
        mon.seen(k)
        return
    if k == 'fixed':
        for name, x in vals:
            for fn, spec in ((check.is_bool, isinstance(x, bool)), (check.is_dict, isinstance(x, dict))):
                try:
                    out = fn(x, 'v')
                    ok = out is x
                except TypeError:
                    ok = not spec
                    out = None
                else:
                    ok = ok and spec
                mon.check(ok, fn.__name__, 'wrong verdict', value=repr(x)[:60])
            mon.seen(k, name)
        return
    fn, spec = getattr(check, k), SPEC[k]
    for name, x in vals:
        if isinstance(x, bool) and 'scalar' in k:
            continue  # Python booleans are integers; not part of the documented contract either way
        exc = [TypeError, ValueError, MyErr][int(r.integers(3))]
        good = bool(spec(x))
        try:
            out = fn(x, 'v', exc)
        except exc:
            mon.check(not good, k, 'a valid value is rejected', value=repr(x)[:80], kind=name)
        except Exception as e:
            mon.check(False, k, 'raised %s rather than the requested exception' % type(e).__name__, value=repr(x)[:80])
        else:
            mon.check(good, k, 'an invalid value is accepted', value=repr(x)[:80], kind=name)
            same = out is x or (np.shape(out) == np.shape(x) and np.array_equal(np.asarray(out), np.asarray(x)))
            mon.check(same, k + '-returns', 'the accepted value is not returned unchanged', value=repr(x)[:80])
        mon.seen(k, name)
    for bad in (1, None, ['a']):
        mon.raises(check.CheckException, lambda: fn(1, bad, TypeError), 'bad-name', 'misuse of a validator (name) accepted')
    for bad in ('TypeError', None, object):
        mon.raises(check.CheckException, lambda: fn(1, 'v', bad), 'bad-exception', 'misuse of a validator (exception) accepted')
