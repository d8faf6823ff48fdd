"""M02: telescope pupil generators move, turn and scale rigidly."""
import copy

import numpy as np
from falco import mask, prop, util
from rv.core import rng_of

RULE = ('Roman (two designs) and LUVOIR A/B pupils and Lyot-stop modes under whole-pixel shears, clockings, magnifications, '
        '180-degree flips, paddings and both centerings, each compared with the geometrically transformed nominal mask; '
        'distinct = (design, lyot, centering, transformation)')

GEN = {
    'roman2020': lambda n, c, d: mask.falco_gen_pupil_Roman_CGI_20200513(n, c, d),
    'roman2018': lambda n, c, d: mask.falco_gen_pupil_WFIRST_CGI_180718(n, c, d),
    'luvoirA': lambda n, c, d: mask.falco_gen_pupil_LUVOIR_A_final(dict(d, Nbeam=n, centering=c)),
    'luvoirB': lambda n, c, d: mask.falco_gen_pupil_LUVOIR_B(dict(d, Nbeam=n, centering=c)),
}
ROT = {'roman2020': 'flagRot180', 'roman2018': 'flagRot180', 'luvoirA': 'flagRot180deg', 'luvoirB': 'flagRot180deg'}
TRANS = ('shear', 'rot180', 'clock', 'mag', 'pad', 'center', 'purity')


def cases(tier, seed):
    n = 1 if tier == 'quick' else 10
    out = []
    for i in range(n):
        for g in GEN:
            for t in TRANS:
                for ly in ((False, True) if g in ('roman2020', 'luvoirA') else (False,)):
                    for cen in ('pixel', 'interpixel'):
                        out.append(dict(kind=g, t=t, lyot=ly, cen=cen, i=i, seed=seed))
    return out


def relay(a, cen):
    return prop.relay(a, 1, centering=cen)


def run_case(case, mon):
    r = rng_of(case)
    g, t, cen = case['kind'], case['t'], case['cen']
    N = int(r.integers(40, 64))
    base = {}
    if case['lyot']:
        base.update(flagLyot=True, ID=float(r.uniform(0.3, 0.5)), OD=float(r.uniform(0.7, 0.9)))
        if r.random() < 0.5:
            base['wStrut'] = float(r.uniform(0.02, 0.05))

    def gen(**kw):
        d = dict(base, **kw)
        d0 = copy.deepcopy(d)
        out = GEN[g](N if 'N' not in kw else kw.pop('N'), cen, d)
        mon.check(d == d0, 'input-mutated', "the caller's options dictionary is changed", keys=sorted(set(d) ^ set(d0)))
        mon.check(out.ndim == 2 and out.shape[0] == out.shape[1] and out.shape[0] % 2 == 0, 'square-even', 'array is not square and even')
        mon.check(np.isrealobj(out) and out.min() >= -1e-12 and out.max() <= 1+1e-9, 'range', 'transmission outside [0, 1]',
                  lo=out.min(), hi=out.max())
        return out
    A = gen()
    mon.check(0.1 < A.mean() < 0.9 and A.shape[0] >= 0.9*N, 'nonempty', 'nominal mask is empty or full', mean=A.mean())
    # no light at the array border: the mask is fully contained
    border = np.concatenate([A[0], A[:, 0]] + ([A[-1], A[:, -1]] if cen == 'interpixel' else []))
    mon.check(np.max(border) <= 1e-9 or cen == 'interpixel', 'contained', 'mask touches the array border')

    def grown(a, n):
        return util.pad_crop(a, int(n))

    def diff(a, b, key, tol_mean, tol_area, msg, **kw):
        n = max(a.shape[0], b.shape[0])
        a, b = grown(a, n), grown(b, n)
        per = 4*N   # rough count of edge pixels
        d = np.abs(a-b)
        mon.check(np.sum(d) <= tol_mean*per, key, msg, total=float(np.sum(d)), allowed=tol_mean*per, worst=float(d.max()), N=N, cen=cen, **kw)
        mon.check(abs(np.sum(a)-np.sum(b)) <= tol_area*np.sum(b), key + '-area', 'open area changes', a=np.sum(a), b=np.sum(b), **kw)
    if t == 'shear':
        sx, sy = (int(v) for v in r.integers(-6, 7, 2))
        B = gen(xShear=sx/N, yShear=sy/N)
        n = max(A.shape[0], B.shape[0]) + 16
        ref = np.roll(grown(A, n), (sy, sx), (0, 1))
        if g == 'luvoirB':
            # its nominal beam width is 0.96075 of the stated number of pixels per pupil diameter
            pass
        diff(B, ref, 'shear', 0.05, 0.01, 'a whole-pixel shear does not translate the mask', sx=sx, sy=sy)
    elif t == 'rot180':
        B = gen(**{ROT[g]: True})
        diff(B, relay(A, cen), 'rot180', 0.10, 0.01, 'the 180-degree flag does not turn the mask about the array centre')
        n = int(r.integers(1, 5))
        C = gen(**{ROT[g]: True, 'xShear': n/N})
        m = max(B.shape[0], C.shape[0]) + 12
        diff(C, np.roll(grown(B, m), -n, 1), 'rot180-shear', 0.12, 0.01, 'shear and 180-degree flag do not combine as shear then turn')
    elif t == 'clock':
        if g in ('luvoirA', 'luvoirB'):
            B180 = gen(clock_deg=180.)
            diff(B180, relay(A, cen), 'clock180', 0.12, 0.01, 'clocking by 180 degrees is not a half turn')
        else:
            B180 = gen(clock_deg=180.)
            diff(B180, relay(A, cen), 'clock180', 0.35, 0.01, 'clocking by 180 degrees is not a half turn')
        q = int(r.choice([-1, 1]))
        B90 = gen(clock_deg=90.*q)
        R = np.rot90(A, -q) if True else A     # rows grow with y, so a counter-clockwise turn in (x, y) is rot90(-1)
        if cen == 'pixel':
            R = np.roll(R, 1, 1 if q == 1 else 0)
        diff(B90, R, 'clock90', 0.35, 0.015, 'clocking by 90 degrees is not a quarter turn', q=q)
        ang = float(r.uniform(-60, 60))
        C = gen(clock_deg=ang)
        D = gen(clock_deg=ang+360)
        diff(C, D, 'clock-periodic', 0.2, 0.01, 'clocking is not periodic', ang=ang)
        mon.check(abs(C.sum()-A.sum()) < 0.02*A.sum(), 'clock-area', 'clocking changes the open area', ang=ang, a=C.sum(), b=A.sum())
    elif t == 'mag':
        m = float(r.choice([0.5, 0.75, 1.25, 1.5]))
        N2 = N - N % 4
        base2 = dict(base)
        if g == 'luvoirA':
            base2.pop('wStrut', None)
        a = GEN[g](N2, cen, dict(base2, magFac=m))
        b = GEN[g](int(N2*m), cen, dict(base2))
        n = max(a.shape[0], b.shape[0])
        d = np.abs(grown(a, n)-grown(b, n))
        mon.check(d.sum() <= 0.12*4*N*m, 'mag', 'magnification is not the same as more pixels across the beam', total=d.sum(), m=m, N=N2, cen=cen)
        mon.check(abs(a.sum()-b.sum()) <= 0.01*b.sum(), 'mag-area', 'magnification area', a=a.sum(), b=b.sum(), m=m)
    elif t == 'pad':
        if g in ('roman2020', 'roman2018'):
            for key in ('pad_all', 'pad_strut', 'pad_COBS', 'pad_COBStabs', 'pad_OD'):
                p = float(r.uniform(0.005, 0.02))
                B = gen(**{key: p})
                n = max(A.shape[0], B.shape[0])
                mon.check(np.max(grown(B, n)-grown(A, n)) <= 0.05, 'pad-monotone', 'padding an obscuration opens light', which=key)
                if not case['lyot'] or key in ('pad_all', 'pad_strut'):
                    mon.check(B.sum() < A.sum(), 'pad-effect', 'padding has no effect', which=key, p=p)
            Q = gen(pad_all=0.01)
            P = gen(pad_strut=0.01, pad_COBS=0.01, pad_COBStabs=0.01, pad_OD=0.01)
            mon.close(P, Q, 'pad-all', 'pad_all is not the sum of the individual paddings', atol=1e-9, rtol=0)
        else:
            W = [float(v) for v in np.sort(r.uniform(0.01, 0.06, 2))]
            if g == 'luvoirA':
                B1, B2 = gen(wStrut=W[0]), gen(wStrut=W[1])
                mon.check(np.max(B2-B1) <= 0.05 and B2.sum() < B1.sum(), 'strut-monotone', 'wider struts open light')
            if not case['lyot']:
                G1, G2 = gen(wGap_m=0.02), gen(wGap_m=0.12)
                dia1, dia2 = G1.sum(), G2.sum()
                mon.check(dia2 < dia1, 'gap-monotone', 'wider segment gaps open light', a=dia1, b=dia2)
    elif t == 'center':
        other = 'interpixel' if cen == 'pixel' else 'pixel'
        B = GEN[g](N, other, dict(base))
        mon.check(abs(A.sum()-B.sum()) < 0.012*A.sum(), 'center-area', 'centering changes the open area', a=A.sum(), b=B.sum())
        if g != 'roman2018' and g != 'roman2020':
            pass

        def centroid(a, c):
            n = a.shape[0]
            x = np.arange(n) - n//2 + (0.5 if c == 'interpixel' else 0)
            return np.array([np.sum(a*x[None, :]), np.sum(a*x[:, None])])/a.sum()
        mon.close(centroid(A, cen), centroid(B, other), 'center-centroid', 'the two centerings place the mask differently', atol=0.06, rtol=0)
        cx = centroid(A, cen)
        mon.check(abs(cx[0]) < 0.06, 'mirror-centroid', 'left-right symmetric pupil is off centre', cx=cx[0])
        if case['lyot']:
            n = A.shape[0]
            x = (np.arange(n) - n//2 + (0.5 if cen == 'interpixel' else 0))/N
            rho = np.hypot(x[None, :], x[:, None])
            mon.check(np.max(A[rho > base['OD']/2 + 1.0/N]) == 0 and np.max(A[rho < base['ID']/2 - 1.0/N]) == 0, 'lyot-annulus',
                      'Lyot stop transmits outside its annulus')
            mid = (rho < base['OD']/2 - 1.0/N) & (rho > base['ID']/2 + 1.0/N)
            mon.check(A[mid].mean() > 0.6, 'lyot-open', 'Lyot stop blocks its annulus', mean=A[mid].mean())
    else:
        gen(xShear=0.05, clock_deg=20., magFac=0.9, **({'pad_all': 0.01} if 'roman' in g else {}))
        B = gen()
        mon.equal(A, B, 'purity', 'a call with options changes later default calls')
        if g in ('roman2020', 'roman2018') and not case['lyot']:
            f = {'roman2020': mask.falco_gen_pupil_Roman_CGI_20200513, 'roman2018': mask.falco_gen_pupil_WFIRST_CGI_180718}[g]
            mon.equal(f(N, cen), A, 'purity', 'default options differ from an empty options dictionary')
        if case['lyot']:
            d = dict(base)
            d.pop('ID')
            mon.raises(ValueError, lambda: GEN[g](N, cen, d), 'lyot-needs-ID', 'Lyot mode without ID accepted')
        # smaller beams share the same shape: open fraction is resolution independent
        C = GEN[g](2*N, cen, dict(base))
        mon.check(abs(C.sum()/4 - A.sum()) < 0.015*A.sum(), 'resolution', 'open area depends on resolution', a=A.sum(), c=C.sum()/4)
    mon.seen(g, case['lyot'], cen, t, N)
