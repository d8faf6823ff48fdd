"""R04: the compiled interpolation routines.  The C files are compiled into a
driver under AddressSanitizer + UndefinedBehaviorSanitizer and again under
ThreadSanitizer, run on exact-size heap blocks with hostile shapes, coordinates,
magnifications and thread counts, and their outputs compared with an independent
evaluation of the kernels; the Python entry points to the same routines are run
with the plain shared libraries on every kind of array."""
import os
import struct
import subprocess

import numpy as np

from rv.core import rng_of, REPO, SCRATCH
from rv.checks import r03

RULE = ('no sanitizer report, the input untouched, every output pixel written, interior pixels equal to the '
        'separable kernel, threaded equal to unthreaded; the Python entry points give the same for every array type')
NPROC = 8
ASSUMPTIONS = ['gcc with -fsanitize=address,undefined and -fsanitize=thread', 'driver arrays are exact-size heap blocks']
EXE = {}
SENTINEL = -7.25e33


def prepare(tier):
    r03.prepare(tier)
    src = os.path.join(REPO, 'falco', 'proper')
    drv = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'native', 'kern.c')
    for kern, f in (('conv', 'cubic_conv_c.c'), ('convt', 'cubic_conv_threaded_c.c'), ('szoom', 'prop_szoom_c.c')):
        for san, flag in (('asan', 'address,undefined,float-cast-overflow'), ('tsan', 'thread')):
            if san == 'tsan' and kern != 'convt':
                continue
            exe = os.path.join(SCRATCH, '%s_%s' % (kern, san))
            cmd = ['gcc', '-g', '-O1', '-w', '-fno-omit-frame-pointer', '-fsanitize=' + flag, '-fno-sanitize-recover=all',
                   '-DKERNEL_FILE="%s"' % os.path.join(src, f)] + (['-DSZOOM'] if kern == 'szoom' else []) + \
                  [drv, '-o', exe, '-lm', '-lpthread']
            p = subprocess.run(cmd, capture_output=True)
            EXE[kern, san] = exe if p.returncode == 0 else None


def cases(tier, seed):
    k = dict(quick=(12, 12, 8, 8, 30, 20), thorough=(150, 150, 80, 80, 400, 150))[tier]
    out = []
    for kind, n in zip(('conv_asan', 'convt_asan', 'convt_tsan', 'szoom_asan', 'wrap', 'wrapzoom'), k):
        out += [dict(kind=kind, i=i, seed=seed) for i in range(n)]
    return out


def keys(d):
    d = abs(d)
    a = -0.5
    return np.where(d <= 1, (a + 2)*d**3 - (a + 3)*d**2 + 1, np.where(d <= 2, a*(d**3 - 5*d**2 + 8*d - 4), 0.0))


def ref_cubic(img, x, y):
    """separable cubic convolution; valid where the whole kernel lies in the image"""
    ny, nx = img.shape
    ok = (np.round(x) >= 2) & (np.round(x) <= nx - 3) & (np.round(y) >= 2) & (np.round(y) <= ny - 3)
    out = np.full(x.shape, np.nan, dtype=img.dtype if np.iscomplexobj(img) else float)
    for k in zip(*np.nonzero(ok)):
        fx, fy = int(np.floor(x[k])), int(np.floor(y[k]))
        i, j = np.arange(fx - 1, fx + 3), np.arange(fy - 1, fy + 3)
        out[k] = keys(y[k] - j) @ img[np.ix_(j, i)] @ keys(x[k] - i)
    return out, ok


def lanczos(d, dk=6):
    d = np.asarray(d, float)
    return np.where(np.abs(d) <= dk, np.sinc(d)*np.sinc(d/dk), 0.0)


def ref_szoom(img, mag, m):
    """damped-sinc zoom about the centre pixel; kernel of 13 pixels around the nearest one"""
    n = img.shape[0]
    t = (np.arange(m) - m//2)/mag
    near = np.sign(t)*np.floor(np.abs(t) + 0.5)
    tie = np.abs(np.abs(t) % 1 - 0.5) < 1e-9        # either neighbour may be taken as the nearest
    px = near.astype(int) + n//2
    ok = (px - 6 >= 0) & (px + 6 < n)
    edge = ((px - 7 >= 0) & (px + 7 < n)) | ~tie
    W = np.zeros((m, n))
    for k in np.nonzero(ok)[0]:
        j = np.arange(px[k] - 6, px[k] + 7)
        W[k, j] = lanczos(j - n//2 - t[k])
    return W @ img @ W.T, np.outer(ok, ok), np.outer(edge, edge)


def coords(r, nx, ny, mx, my, grid):
    how = r.integers(5)
    span = [0, 1, 3, 50, 1e5][how]
    if grid:
        x1 = r.uniform(-span, nx - 1 + span, mx)
        y1 = r.uniform(-span, ny - 1 + span, my)
        if r.random() < 0.3:
            x1, y1 = np.round(x1), np.round(y1)
        elif r.random() < 0.2:
            x1, y1 = np.round(x1) + 0.5, np.round(y1) - 0.5
        x, y = np.meshgrid(x1, y1)
    else:
        x = r.uniform(-span, nx - 1 + span, (my, mx))
        y = r.uniform(-span, ny - 1 + span, (my, mx))
    return x, y, 'span %g' % span


def run_driver(case, mon):
    kern, san = case['kind'].split('_')
    exe = EXE.get((kern, san))
    mon.check(exe is not None, 'kernel-compiles', 'compiled interpolator %s does not compile (%s)' % (kern, san))
    if exe is None:
        return
    r = rng_of(case)
    batch, specs = [], []
    for _ in range(12):
        if kern == 'szoom':
            n = int(r.integers(1, 70))
            m = int(r.integers(1, 90))
            mag = float(r.choice([r.uniform(0.1, 6), 1.0, 2.0, 0.5, r.uniform(0.01, 0.1), r.uniform(6, 40)]))
            img = r.normal(size=(n, n))
            batch.append(struct.pack('6i', n, n, m, m, 1, 0) + img.tobytes() + struct.pack('d', mag))
            specs.append((n, m, mag, img))
        else:
            nx, ny = int(r.integers(1, 40)), int(r.integers(1, 40))
            mx, my = int(r.integers(1, 48)), int(r.integers(1, 48))
            if r.random() < 0.2:
                my = int(r.integers(1, 4))
            th = int(r.choice([1, 2, 3, 5, 8, 13, 33, my, my + 1])) if kern == 'convt' else 1
            grid = kern == 'convt' or r.random() < 0.5
            img = r.normal(size=(ny, nx))
            x, y, sp = coords(r, nx, ny, mx, my, grid)
            batch.append(struct.pack('6i', nx, ny, mx, my, th, 0) + img.tobytes() + x.tobytes() + y.tobytes())
            specs.append((img, x, y, th, sp))
    base = os.path.join(SCRATCH, 'kern_%s_%d_%d' % (case['kind'], case['i'], os.getpid()))
    with open(base + '.in', 'wb') as f:
        f.write(struct.pack('i', len(batch)))
        for b in batch:
            f.write(b)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=66', UBSAN_OPTIONS='print_stacktrace=1',
               TSAN_OPTIONS='exitcode=66:halt_on_error=0')
    p = subprocess.run([exe, base + '.in', base + '.out'], capture_output=True, text=True, env=env, errors='replace')
    err = p.stderr
    rep = [l for l in err.splitlines() if 'ERROR: ' in l or 'WARNING: ThreadSanitizer' in l or 'runtime error' in l]
    if not rep and ('FATAL: ThreadSanitizer' in err or 'personality' in err) and 'CASE 0' not in err:
        mon.count('driver runs the sanitizer could not start')
        return
    mon.check(p.returncode == 0 and 'DONE' in err and not rep, 'sanitizer-clean',
                  '%s under %s: exit %s, %s' % (kern, san, p.returncode, (rep or err.splitlines()[-3:])[:2]))
    mon.count('sanitized kernel calls', err.count('CASE '))
    if san == 'tsan':
        mon.count('threads watched by the race detector', sum(s[3] for s in specs))
    if p.returncode:
        return
    with open(base + '.out', 'rb') as f:
        for c, s in enumerate(specs):
            changed = struct.unpack('i', f.read(4))[0]
            mon.check(changed == 0, 'kernel-input-changed', '%s changed its input image' % kern)
            if kern == 'szoom':
                n, m, mag, img = s
                out = np.frombuffer(f.read(8*m*m)).reshape(m, m)
                ref, ok, judge = ref_szoom(img, mag, m)
                wrote = out != SENTINEL
                mon.check(not np.any((wrote != ok) & judge), 'zoom-coverage',
                  'zoom %d -> %d by %.3f wrote %d pixels, %d have their kernel inside' % (n, m, mag, wrote.sum(), ok.sum()))
                q = ok & judge
                if q.any():
                    mon.close(out[q], ref[q], 'zoom-value', 'zoomed pixels (%d -> %d by %.3f)' % (n, m, mag),
                              rtol=1e-9, scale=np.abs(img).max())
                    mon.count('zoomed pixels compared', int(q.sum()))
                mon.seen('zoom', (n % 2, m % 2, mag > 1, bool(q.any())))
                continue
            img, x, y, th, sp = s
            out = np.frombuffer(f.read(8*x.size)).reshape(x.shape)
            mon.check(np.all(out != SENTINEL) and np.all(np.isfinite(out)), 'cubic-written',
                  '%s left %d of %d outputs unwritten (%s, %d threads)' % (kern, (out == SENTINEL).sum(), out.size, x.shape, th))
            mon.check(np.all(np.abs(out) <= 1.6*np.abs(img).max() + 1e-12), 'cubic-bounded',
                  '%s output beyond any cubic convolution of its image' % kern)
            ref, ok = ref_cubic(img, x, y)
            if ok.any():
                mon.close(out[ok], ref[ok], 'cubic-value', 'interpolated pixels (%s, image %s, %s, %d threads)' % (kern, img.shape, sp, th),
                          rtol=1e-9, scale=np.abs(img).max())
                mon.count('interpolated pixels compared', int(ok.sum()))
            mon.seen('cubic', (kern, sp, th > x.shape[0], th > 1, img.shape[0] < 5 or img.shape[1] < 5))
    for e in ('.in', '.out'):
        os.unlink(base + e)


def run_wrap(case, mon):
    import falco.proper as proper
    r = rng_of(case)
    nx, ny = int(r.integers(5, 40)), int(r.integers(5, 40))
    mx, my = int(r.integers(1, 40)), int(r.integers(2, 40))
    typ = str(r.choice(['float', 'complex', 'float32', 'int', 'complex64']))
    img = r.normal(size=(ny, nx))*100
    if typ.startswith('complex'):
        img = (img + 1j*r.normal(size=(ny, nx))*100).astype(typ)
    elif typ == 'int':
        img = np.round(img).astype(int)
    else:
        img = img.astype(dict(float=float, float32=np.float32)[typ])
    lay = str(r.choice(['C', 'F', 'slice', 'reversed', 'T']))
    if lay == 'F':
        arr = np.asfortranarray(img)
    elif lay == 'slice':
        big = np.zeros((2*ny, 3*nx), img.dtype)
        big[::2, 1::3] = img
        arr = big[::2, 1::3]
    elif lay == 'reversed':
        arr = img[::-1, ::-1].copy()[::-1, ::-1]
    elif lay == 'T':
        arr = img.T.copy().T
    else:
        arr = img
    grid = bool(r.random() < 0.6)
    thr = bool(r.random() < 0.6)
    x, y, sp = coords(r, nx, ny, mx, my, grid)
    r03.use_c(proper, True)
    keep = arr.copy()
    what = 'prop_cubic_conv of %s %s (%s) onto %s, grid=%s threaded=%s' % (typ, img.shape, lay, x.shape, grid, thr)
    try:
        _, out = mon.runs(lambda: proper.prop_cubic_conv(arr, x[0] if grid else x, y[:, 0] if grid else y,
                                                                   THREADED=thr, GRID=grid), 'wrap-runs', what)
        other = None
        if grid:
            other = proper.prop_cubic_conv(arr, x[0], y[:, 0], THREADED=not thr, GRID=True)
    finally:
        r03.use_c(proper, False)
    if out is None:
        return
    mon.check(np.array_equal(keep, arr), 'wrap-input-changed', what)
    mon.check(np.size(out) == x.size and (np.shape(out) == x.shape or 1 in x.shape), 'wrap-shape',
                  '%s gives %s' % (what, np.shape(out)))
    if np.size(out) != x.size:
        return
    out = np.reshape(out, x.shape)
    ref, ok = ref_cubic(img.astype(complex) if typ.startswith('complex') else img.astype(float), x, y)
    scale = np.abs(img).max()
    if ok.any():
        if typ == 'int':
            mon.close(out[ok], ref[ok], 'wrap-value-int', what, rtol=0, atol=1.0001)
        else:
            mon.close(out[ok], ref[ok], 'wrap-value', what, rtol=1e-9, scale=scale)
        mon.count('interpolated pixels compared', int(ok.sum()))
    if other is not None:
        mon.close(np.reshape(other, x.shape), out, 'threaded-equals-unthreaded', what, rtol=1e-12, scale=scale, atol=1.0001 if typ == 'int' else 0)
    mon.seen('wrap', (typ, lay, grid, thr, nx == ny))


def run_wrapzoom(case, mon):
    import falco.proper as proper
    r = rng_of(case)
    n, m = int(r.integers(14, 60)), int(r.integers(4, 90))
    mag = float(r.choice([r.uniform(0.3, 4), 1.0, 2.0]))
    cplx = bool(r.random() < 0.5)
    img = r.normal(size=(n, n)) + (1j*r.normal(size=(n, n)) if cplx else 0)
    lay = str(r.choice(['C', 'F', 'slice']))
    arr = img
    if lay == 'F':
        arr = np.asfortranarray(img)
    elif lay == 'slice':
        big = np.zeros((n, 2*n), img.dtype)
        big[:, ::2] = img
        arr = big[:, ::2]
    ref, ok, judge = ref_szoom(img, mag, m)
    outs = {}
    for c in (True, False):
        r03.use_c(proper, c)
        what = 'prop_magnify of %s %d (%s) by %.3f to %d, compiled=%s' % ('complex' if cplx else 'real', n, lay, mag, m, c)
        try:
            _, outs[c] = mon.runs(lambda: proper.prop_magnify(arr, mag, m), 'zoom-runs', what)
        finally:
            r03.use_c(proper, False)
        if outs[c] is None or outs[c].shape != (m, m):
            mon.check(outs[c] is None, 'zoom-shape', what)
            continue
        mon.close(outs[c][judge], np.where(ok, ref, 0)[judge], 'wrap-zoom-value', what, rtol=1e-9, scale=np.abs(img).max())
        mon.count('zoomed pixels compared', int((ok & judge).sum()))
    mon.seen('wrapzoom', (cplx, lay, n % 2, m % 2, mag == 1, m > n))


def run_case(case, mon):
    if case['kind'] == 'wrap':
        run_wrap(case, mon)
    elif case['kind'] == 'wrapzoom':
        run_wrapzoom(case, mon)
    else:
        run_driver(case, mon)
