"""J03: the full and compact optical models."""
import numpy as np
import falco
from rv.core import rng_of
from rv import configs

RULE = ('full and compact models of LC/FLC/APLC/HLC/vortex coronagraphs over random optical options, against each other at equal sampling, against '
        'an independent dense-matrix model of the optical train, and against source-shift, linearity, normalisation and repeatability laws; '
        'distinct = (kind, coronagraph, options)')
ASSUMPTIONS = ['DM surfaces in the reference model come from the code under test (they are judged by D01)',
               'vortex models are compared with each other and by laws, not with the dense reference (P03 judges the vortex propagation)']


def cases(tier, seed):
    q = tier == 'quick'
    n = dict(equal=14, ref=14, laws=10) if q else dict(equal=160, ref=160, laws=120)
    return [dict(kind=k, i=i, seed=seed) for k in ('equal', 'ref', 'laws') for i in range(n[k])]


def options(r, i, vc=True):
    coro = ['LC', 'FLC', 'APLC', 'HLC', 'VC'][i % (5 if vc else 4)]
    o = dict()
    o['centering'] = 'interpixel' if r.random() < 0.35 and coro != 'VC' else 'pixel'
    if r.random() < 0.6:
        o['relays'] = tuple(int(x) for x in r.integers(0, 4, 4))
        o['flagRotation'] = bool(r.random() < 0.7)
    if r.random() < 0.5:
        o['d_P2_dm1'] = float(r.choice([0.03, -0.02, 0.2, -0.05]))
        o['d_dm1_dm2'] = float(r.choice([0.05, 0.3, -0.02, -float(o['d_P2_dm1'])]))
    if r.random() < 0.3:
        o['tilt1'] = tuple(float(x) for x in r.uniform(-8, 8, 3))
        o['tilt2'] = (0., 0., float(r.uniform(-30, 30)))
    if r.random() < 0.3:
        for k in (1, 2):
            o['dmc%d' % k] = tuple(float(x) for x in 5.5+r.uniform(-0.8, 0.8, 2))
    if r.random() < 0.3:
        o['orient1'], o['orient2'] = [str(x) for x in r.choice(['rot0', 'rot90', 'rot180', 'rot270', 'flipxrot0', 'flipxrot90'], size=2)]
    if r.random() < 0.4:
        o['DM1stop'], o['DM2stop'] = bool(r.random() < 0.7), bool(r.random() < 0.7)
        o['Dstop'] = float(r.uniform(8e-3, 11.5e-3))
    if r.random() < 0.3:
        o['dm_ind'] = [[1], [2]][int(r.integers(2))]
    if r.random() < 0.5:
        o['Nsbp'] = int(r.choice([2, 3]))
        o['fracBW'] = float(r.uniform(0.05, 0.2))
    if r.random() < 0.3 and coro in ('LC', 'APLC'):
        o['FPMampFac'] = float(r.uniform(0, 0.3))
    if coro in ('LC', 'FLC', 'VC'):
        o['apod'] = bool(r.random() < 0.4)
    if coro in ('LC', 'FLC', 'APLC') and r.random() < 0.3:
        o['layout'] = 'fpm_scale'
    o['hlc_seed'] = int(r.integers(1000))
    if r.random() < 0.4:
        o['stars'] = [(0., 0., 1.)] + [(float(r.uniform(-5, 5)), float(r.uniform(-5, 5)), float(r.uniform(0.1, 2)))
                                       for _ in range(int(r.integers(1, 3)))]
        if r.random() < 0.5:
            o['stars'][0] = (float(r.uniform(-0.5, 0.5)), float(r.uniform(-0.5, 0.5)), 1.)
        o['jac_star_weights'] = [1.]*len(o['stars'])
    if r.random() < 0.4:
        o['zerns'] = [1, int(r.integers(2, 8))]
        o['Zcoef'] = 1e-9*r.uniform(0.5, 5, 2)
    if coro == 'VC':
        o['charge'] = int(r.choice([2, 4, 6]))
    o['norm_xy'] = (float(r.integers(3, 6)), float(r.integers(-3, 4)))
    o['Fend_res'] = float(r.choice([2, 2.5, 3]))
    return coro, o


def variables(mp, **kw):
    mv = falco.config.ModelVariables()
    mv.whichSource = 'star'
    for k, v in kw.items():
        setattr(mv, k, v)
    return mv


def tag(o):
    return tuple(sorted(o))


# ---- independent dense model -------------------------------------------------
def axis(n, cen):
    return np.arange(n) - n//2 + (0.5 if cen == 'interpixel' else 0.)


def embed(a, n):
    """place or cut centre to centre"""
    m = a.shape[0]
    out = np.zeros((n, n), dtype=complex)
    if m <= n:
        s = n//2 - m//2
        out[s:s+m, s:s+m] = a
    else:
        s = m//2 - n//2
        out = np.asarray(a, dtype=complex)[s:s+n, s:s+n].copy()
    return out


def turn(E, n, cen):
    """n re-imaging relays"""
    if n % 2 == 0:
        return E
    N = E.shape[0]
    if cen == 'interpixel':
        return E[::-1, ::-1].copy()
    idx = (-(np.arange(N) - N//2)) + N//2
    idx = idx % N
    return E[np.ix_(idx, idx)]


def fresnel(E, W, lam, z):
    N = E.shape[0]
    f = np.fft.fftfreq(N, d=W/N)
    H = np.exp(-1j*np.pi*lam*z*(f[None, :]**2 + f[:, None]**2))
    return np.fft.ifft2(np.fft.fft2(E)*H)


def lens(E, x, u, lamf, sign=-1):
    """Fraunhofer integral from samples at x to samples at u"""
    K = np.exp(sign*2j*np.pi*np.outer(u, x)/lamf)
    return K @ E @ K.T * (x[1]-x[0])*(u[1]-u[0])/lamf


def reference(mp, coro, o, side, wvl, ilam, mv, norm_source=False, offaxis=False):
    cen = mp.centering
    full = side == 'full'
    P1, P2, P3, P4, F3 = [getattr(x, side) for x in (mp.P1, mp.P2, mp.P3, mp.P4, mp.F3)]
    dx2, dx4 = P2.dx, P4.dx
    npad = int(mp.full.NdmPad if full else mp.compact.NdmPad)
    rel = o.get('relays', (1, 1, 1, 0)) if o.get('flagRotation', True) else (0, 0, 0, 0)
    x = axis(npad, cen)*dx2
    D = mp.P2.D
    st = o.get('stars', [(0., 0., 1.)])[mv.starIndex]
    ax, ay = st[0], st[1]
    if norm_source:
        ax, ay = ax+mp.source_x_offset_norm, ay+mp.source_y_offset_norm
    if offaxis:
        ax, ay = ax+mv.x_offset, ay+mv.y_offset
    ramp = np.exp(-2j*np.pi*(mp.lambda0/wvl)*(ax*x[None, :] + ay*x[:, None])/D)
    E = np.sqrt(st[2])*embed(np.asarray(P1.mask), npad)*ramp
    if mv.zernIndex != 1:
        z = np.squeeze(falco.zern.gen_norm_zern_maps(P1.Nbeam, cen, mv.zernIndex))
        k = [q for q, n in enumerate(np.atleast_1d(mp.jac.zerns)) if n == mv.zernIndex][0]
        E = E*embed(z, npad)*(2j*np.pi/wvl)*np.atleast_1d(mp.jac.Zcoef)[k]
    E = turn(E, rel[0], cen)
    W = dx2*npad
    use = o.get('dm_ind', [1, 2])
    z1, z2 = mp.d_P2_dm1, mp.d_dm1_dm2
    if z1:
        E = fresnel(E, W, wvl, z1)
    rr = np.hypot(x[None, :], x[:, None])
    for k, dm, z, stop in ((1, mp.dm1, z2, o.get('DM1stop', False)), (2, mp.dm2, None, o.get('DM2stop', False))):
        if stop:
            E = E*embed(np.asarray(getattr(dm, side).mask), npad)
        if k in use:
            s = falco.dm.gen_surf_from_act(dm, dm.dx if full else dm.compact.dx, npad)
            E = E*np.exp(4j*np.pi*s/wvl)
        E = fresnel(E, W, wvl, z if k == 1 else -(z1+z2))
    del rr
    E = turn(E, rel[1], cen)
    if mp.flagApod:
        a = np.asarray(P3.mask)
        E = embed(E, P3.Narr)*embed(a, P3.Narr)
    xx = axis(E.shape[0], cen)*dx2
    scale = wvl/mp.lambda0 if mp.layout == 'fpm_scale' else 1.
    n4 = P4.Narr
    x4 = axis(n4, cen)*dx4
    mask = np.asarray(mp.full.fpmCube[:, :, ilam] if (coro == 'HLC' and full) else mp.compact.fpmCube[:, :, ilam] if coro == 'HLC' else F3.mask)
    u = axis(mask.shape[1], cen)*F3.dxi*scale
    lf = wvl*mp.fl
    foc = lens(E, xx, u, lf)
    direct = turn(E, rel[2], cen)

    def back(F):
        return turn(lens(F, u, x4, lf), rel[2]-1, cen)
    if coro == 'FLC':
        E4 = back(mask*foc)
    else:
        t = mask[0, 0] if coro == 'HLC' else 1.
        E4 = t*embed(direct, n4) - back((t-mask)*foc)
    E4 = E4*np.asarray(P4.croppedMask)
    E4 = turn(E4, rel[3], cen)
    v = axis(mp.Fend.Nxi, cen)*mp.Fend.dxi
    return lens(E4, x4, v, lf)


def run_case(case, mon):
    r = rng_of(case)
    kind, i = case['kind'], case['i']
    {'equal': equal, 'ref': ref, 'laws': laws}[kind](r, i, mon)


def equal(r, i, mon):
    coro, o = options(r, i)
    mp, _ = configs.fleshed(coro, **o)
    configs.set_v(mp, r, 25.)
    for si in range(mp.Nsbp):
        for star in range(len(o.get('stars', [0]))):
            for zern in ([1] + list(o.get('zerns', [1]))[1:])[:2]:
                kw = dict(sbpIndex=si, wpsbpIndex=0, starIndex=star, zernIndex=zern)
                if r.random() < 0.4:
                    kw.update(whichSource='offaxis', x_offset=float(r.uniform(-5, 5)), y_offset=float(r.uniform(-5, 5)))
                with configs.quiet():
                    a = falco.model.full(mp, variables(mp, **kw))
                    b = falco.model.compact(mp, variables(mp, **kw))
                mon.close(a, b, 'full-compact', 'full and compact models disagree at equal sampling', rtol=1e-8, coro=coro, opts=o, kw=kw)
                mon.seen('equal', coro, tag(o), zern == 1, 'whichSource' in kw)
    mon.sample(coro=coro, opts=o)


def ref(r, i, mon):
    coro, o = options(r, i, vc=False)
    if r.random() < 0.5:
        o['Nbeam_full'] = int(r.choice([40, 48, 56]))
        o['F3_res_full'] = float(r.choice([3, 4])) if coro != 'HLC' else 3
    if r.random() < 0.5:
        o['Nwpsbp'] = int(r.choice([2, 3]))
        o.setdefault('fracBW', 0.1)
    mp, _ = configs.fleshed(coro, **o)
    configs.set_v(mp, r, 25.)
    nst = len(o.get('stars', [0]))
    for _ in range(3):
        si, wi, star = int(r.integers(mp.Nsbp)), int(r.integers(mp.Nwpsbp)), int(r.integers(nst))
        zern = int(r.choice(o.get('zerns', [1])))
        kw = dict(sbpIndex=si, wpsbpIndex=wi, starIndex=star, zernIndex=zern)
        src = int(r.integers(3))
        if src == 1:
            kw.update(whichSource='offaxis', x_offset=float(r.uniform(-5, 5)), y_offset=float(r.uniform(-5, 5)))
        for side in ('full', 'compact'):
            mv = variables(mp, **kw)
            wvl = mp.full.lambdasMat[si, wi] if side == 'full' else mp.sbp_centers[si]
            if coro == 'HLC' and side == 'full':
                ilam = si*(mp.Nwpsbp-1)+wi if mp.Nwpsbp > 1 else si
            else:
                ilam = si
            norm = src != 2
            with configs.quiet():
                f = falco.model.full if side == 'full' else falco.model.compact
                E = f(mp, mv, isNorm=norm)
                e = reference(mp, coro, o, side, wvl, ilam, mv, norm_source=not norm, offaxis=src == 1)
            if norm:
                e = e/np.sqrt(mp.Fend.full.I00[si, wi] if side == 'full' else mp.Fend.compact.I00[si])
            mon.close(E, e, 'reference-'+side, 'model differs from an independent dense-matrix model of the same optics', rtol=1e-7,
                      coro=coro, opts=o, kw=kw, norm=norm)
            mon.count('reference fields compared')
            mon.seen('ref', side, coro, tag(o), src, zern == 1)
    mon.sample(coro=coro, opts=o)


def laws(r, i, mon):
    coro, o = options(r, i)
    if coro == 'LC' and r.random() < 0.5:
        o['Nbeam_full'] = 48
    if r.random() < 0.5:
        o['Nwpsbp'] = 2 if coro != 'HLC' else 3
    o.pop('stars', None)
    mp, _ = configs.fleshed(coro, **o)
    V = [mp.dm1.V.copy(), mp.dm2.V.copy()]
    # normalisation: the reference source peaks at one, and renormalising is a no-op
    with configs.quiet():
        for si in range(mp.Nsbp):
            p = np.abs(falco.model.compact(mp, variables(mp, sbpIndex=si), isNorm=False))**2
            mon.close(mp.Fend.compact.I00[si], p.max(), 'norm-compact', 'normalisation is not the peak of the reference source', rtol=1e-10, coro=coro, opts=o)
            for wi in range(mp.Nwpsbp):
                p = np.abs(falco.model.full(mp, variables(mp, sbpIndex=si, wpsbpIndex=wi), isNorm=False))**2
                mon.close(mp.Fend.full.I00[si, wi], p.max(), 'norm-full', 'normalisation is not the peak of the reference source', rtol=1e-10, coro=coro, opts=o)
            if coro != 'VC':
                mv = variables(mp, sbpIndex=si, whichSource='offaxis', x_offset=mp.source_x_offset_norm, y_offset=mp.source_y_offset_norm)
                p = np.abs(falco.model.compact(mp, mv))**2
                mon.close(p.max(), 1.0, 'peak-one', 'an off-axis source at the reference position does not peak at one', rtol=1e-9, coro=coro, opts=o)
        before = [np.array(x).copy() for x in (mp.Fend.compact.I00, mp.Fend.full.I00, mp.Fend.eval.I00)]
        falco.imaging.calc_psf_norm_factor(mp)
        for b, a in zip(before, (mp.Fend.compact.I00, mp.Fend.full.I00, mp.Fend.eval.I00)):
            mon.close(a, b, 'norm-repeat', 'renormalising changes the normalisation', rtol=1e-12, coro=coro)
        # throughput
        th, im = falco.imaging.calc_thput(mp)
        th = float(th)
        mon.check(0 < th <= 1.0, 'thput-range', 'throughput outside (0, 1]', value=th, coro=coro, opts=o)
        rho = np.hypot(*np.meshgrid(np.asarray(mp.Fend.eval.xisDL) - mp.thput_eval_x, np.asarray(mp.Fend.eval.etasDL) - mp.thput_eval_y))
        s = 0.
        for si in range(mp.Nsbp):
            mv = variables(mp, sbpIndex=si, whichSource='offaxis', x_offset=mp.thput_eval_x, y_offset=mp.thput_eval_y)
            s = s + mp.sbp_weights[si]*np.abs(falco.model.compact(mp, mv, isEvalMode=True))**2
        mon.close(im, s, 'offaxis-image', 'off-axis image is not the band-weighted intensity', rtol=1e-9, coro=coro, opts=o)
        sp = np.sum(np.abs(np.asarray(mp.P1.compact.mask))**2)
        mon.close(th, s[rho <= mp.thput_radius].sum()*np.mean(mp.Fend.eval.I00)/sp, 'thput', 'encircled-energy throughput', rtol=1e-9, coro=coro, opts=o)
    configs.set_v(mp, r, 20.)
    V = [mp.dm1.V.copy(), mp.dm2.V.copy()]
    si = int(r.integers(mp.Nsbp))
    wi = int(r.integers(mp.Nwpsbp))
    base = dict(sbpIndex=si, wpsbpIndex=wi)
    with configs.quiet():
        for nm, f in (('full', falco.model.full), ('compact', falco.model.compact)):
            a = f(mp, variables(mp, **base))
            b = f(mp, variables(mp, whichSource='offaxis', x_offset=0., y_offset=0., **base))
            mon.close(b, a, 'offaxis-zero-'+nm, 'a source at zero offset differs from the star', rtol=1e-12, coro=coro)
            f(mp, variables(mp, whichSource='offaxis', x_offset=2., y_offset=-1., sbpIndex=0, wpsbpIndex=0))
            c = f(mp, variables(mp, **base))
            mon.equal(c, a, 'repeatable-'+nm, 'the same call gives another field the second time', coro=coro, opts=o)
            mon.check(a.shape == (mp.Fend.Neta, mp.Fend.Nxi) and np.all(np.isfinite(a)), 'field-shape', 'field shape', coro=coro)
        mon.equal(mp.dm1.V, V[0], 'keeps-V', 'running a model changed the DM command')
        mon.equal(mp.dm2.V, V[1], 'keeps-V', 'running a model changed the DM command')
        # the entrance-pupil field enters linearly
        keep = mp.P1.compact.E.copy()
        for nm, f, P in (('full', falco.model.full, mp.P1.full), ('compact', falco.model.compact, mp.P1.compact)):
            E0 = np.array(P.E).copy()
            n = E0.shape[:2]
            A, B = [r.standard_normal(n)+1j*r.standard_normal(n) for _ in range(2)]
            al = complex(r.standard_normal(), r.standard_normal())
            out = []
            for q in (A, B, A+al*B):
                e = E0.copy().astype(complex)
                e[...] = q.reshape(q.shape + (1,)*(E0.ndim-2))
                P.E = e
                out.append(f(mp, variables(mp, **base)))
            P.E = E0
            mon.close(out[2], out[0]+al*out[1], 'linear-'+nm, 'field is not linear in the entrance-pupil field', rtol=1e-9, coro=coro, opts=o)
        del keep
        # opposite pistons: equal voltages everywhere on a DM is (nearly) a global phase at the centre; a zero command is the flat one
        mp.dm1.V = np.zeros_like(V[0])
        mp.dm2.V = np.zeros_like(V[1])
        a = falco.model.compact(mp, variables(mp, **base))
        ind = list(o.get('dm_ind', [1, 2]))
        other = [k for k in (1, 2) if k not in ind]
        for k in other:
            (mp.dm1 if k == 1 else mp.dm2).V = 30*r.standard_normal(V[0].shape)
            b = falco.model.compact(mp, variables(mp, **base))
            mon.equal(b, a, 'unused-dm', 'a DM that is not in use changes the field', coro=coro)
        mon.seen('laws', coro, tag(o))
    # an unocculted source moves by its offset, in units of the central wavelength over D, at every wavelength
    if coro != 'VC':
        mp.dm1.V = np.zeros_like(V[0])
        mp.dm2.V = np.zeros_like(V[1])
        F = mp.F3
        for q in (F.full, F.compact):
            q.mask = np.ones_like(q.mask)
        if coro == 'HLC':
            mp.full.fpmCube = np.ones_like(mp.full.fpmCube)
            mp.compact.fpmCube = np.ones_like(mp.compact.fpmCube)
        xx, yy = float(r.uniform(-3, 3)), float(r.uniform(-3, 3))
        even = sum(o.get('relays', (1, 1, 1, 0))[:3])*o.get('flagRotation', True) + o.get('relays', (1, 1, 1, 0))[3]*o.get('flagRotation', True)
        sg = 1 if even % 2 == 0 else -1
        for nm, f in (('full', falco.model.full), ('compact', falco.model.compact)):
            with configs.quiet():
                I = np.abs(f(mp, variables(mp, whichSource='offaxis', x_offset=xx, y_offset=yy, **base)))**2
            XI, ETA = np.meshgrid(np.asarray(mp.Fend.xisDL), np.asarray(mp.Fend.etasDL))
            w = I*(I > 0.3*I.max())
            cx, cy = (w*XI).sum()/w.sum(), (w*ETA).sum()/w.sum()
            # an FPM-free train with an even number of pupil rotations images (x, y) at (-x, -y): forward transform of exp(-i..)
            ok = min(np.hypot(cx+s*xx, cy+s*yy) for s in (sg, -sg)) < 0.35
            mon.check(ok, 'source-position-'+nm, 'an unocculted source is not imaged at its offset', x=xx, y=yy, cx=float(cx), cy=float(cy), coro=coro, opts=o)
    mon.sample(coro=coro, opts=o)
