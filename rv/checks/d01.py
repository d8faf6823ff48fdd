"""D01: deformable-mirror surfaces are the superposition of the actuators' influence functions."""
import numpy as np
from astropy.io import fits
from scipy.interpolate import RectBivariateSpline
import falco
from rv.core import rng_of
from rv import configs

RULE = ('DM commands (noise, single pokes, edge actuators) over actuator counts, array sizes odd/even, centering, offsets, three tilts in both orders, eight '
        'orientations, gain maps, influence functions and signs: surface against an independently coded sum of spline-interpolated influence functions; '
        'the differentiable model, its adjoint, and the influence cube against the same; distinct = (kind, options, parity)')
ASSUMPTIONS = ['tolerance 2e-3 of the peak surface (6e-3 for the influence function with sharp edges, 1e-2 for the Fourier-interpolated differentiable model, '
               'cube 4e-3): interpolation error of the unchanged code is 3-10 times smaller']

ORI = ['rot0', 'rot90', 'rot180', 'rot270', 'flipxrot0', 'flipxrot90', 'flipxrot180', 'flipxrot270']


def cases(tier, seed):
    q = tier == 'quick'
    n = dict(surface=40, diff=24, cube=8, prop=8) if q else dict(surface=600, diff=300, cube=100, prop=80)
    return [dict(kind=k, i=i, seed=seed) for k in ('cube', 'diff', 'surface', 'prop') for i in range(n[k])]


def make(nact, r, o):
    dm = falco.config.Object()
    dm.Nact = nact
    dm.dm_spacing = o.get('spacing', 1e-3)
    dm.inf_fn = o.get('inf', falco.INFLUENCE_XINETICS)
    dm.inf_sign = o.get('sign', '+')
    dm.VtoH = np.array(o['VtoH']) if 'VtoH' in o else 1e-9*np.ones((nact, nact))
    dm.xtilt, dm.ytilt, dm.zrot = o.get('tilt', (0., 0., 0.))
    if 'zyx' in o:
        dm.flagZYX = o['zyx']
    dm.xc, dm.yc = o.get('c', (nact/2-0.5, nact/2-0.5))
    dm.centering = o.get('centering', 'pixel')
    if 'orientation' in o:
        dm.orientation = o['orientation']
    dm.edgeBuffer = 1
    dm.useDifferentiableModel = False
    dm.Vmin, dm.Vmax = -1e9, 1e9
    dm.biasMap = np.zeros((nact, nact))
    dm.pinned, dm.Vpinned = np.array([]), np.array([])
    dm.tied = np.zeros((0, 2), dtype=int)
    dm.dead = np.array([], dtype=int)
    dm.flagNbrRule = False
    return dm


def reorient(H, name):
    if name.startswith('flipx'):
        H = H[:, ::-1]
    for _ in range(int(name.split('rot')[1])//90):
        H = H[:, ::-1].T  # quarter turn anticlockwise
    return H


def reference(dm, dx, N, H=None):
    H = dm.VtoH*dm.V if H is None else H
    H = reorient(H, getattr(dm, 'orientation', 'rot0').lower())
    inf = np.squeeze(fits.getdata(dm.inf_fn)).astype(float)
    hd = fits.getheader(dm.inf_fn)
    n = inf.shape[0]
    ax = (np.arange(n) - n//2)*hd['P2PDX_M']/hd['C2CDX_M']
    sp = RectBivariateSpline(ax, ax, inf)
    a, b, g = np.radians([dm.xtilt, dm.ytilt, dm.zrot])
    Rx = np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
    Ry = np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
    Rz = np.array([[np.cos(g), -np.sin(g), 0], [np.sin(g), np.cos(g), 0], [0, 0, 1]])
    M = (Rz@Ry@Rx) if getattr(dm, 'flagZYX', False) else (Rx@Ry@Rz)
    P = M.T[:2, :2]
    x = (np.arange(N)-N//2)*dx + (dx/2 if dm.centering == 'interpixel' else 0)
    X, Y = np.meshgrid(x, x)
    Q = np.linalg.solve(P, np.stack([X.ravel(), Y.ravel()]))/dm.dm_spacing
    U = (Q[0]+dm.xc).reshape(N, N)
    W = (Q[1]+dm.yc).reshape(N, N)
    S = np.zeros((N, N))
    for i, j in zip(*np.nonzero(H)):
        u, w = U-j, W-i
        k = (np.abs(u) <= ax[-1]) & (np.abs(w) <= ax[-1])
        if np.any(k):
            S[k] += H[i, j]*sp(w[k], u[k], grid=False)
    return S*(1. if dm.inf_sign == '+' else -1.)


def options(r, i):
    o = {}
    nact = int(r.choice([8, 11, 12, 13, 16]))
    o['c'] = tuple(float(x) for x in nact/2-0.5+r.uniform(-1.5, 1.5, 2)*(r.random() < 0.6))
    if r.random() < 0.6:
        m = r.random(3) < 0.6
        o['tilt'] = tuple(float(x) for x in r.uniform(-20, 20, 3)*m)
        if r.random() < 0.5:
            o['zyx'] = bool(r.random() < 0.6)
    if i % 2 == 0:
        o['orientation'] = str(ORI[(i//2) % 8])
    o['centering'] = 'interpixel' if r.random() < 0.4 else 'pixel'
    if r.random() < 0.5:
        o['VtoH'] = 1e-9*r.uniform(0.3, 3, (nact, nact))
    if r.random() < 0.25:
        o['inf'] = falco.INFLUENCE_BMC_2K
    if r.random() < 0.3:
        o['sign'] = '-'
    o['spacing'] = float(r.choice([1e-3, 0.3e-3, 0.9906e-3]))
    return nact, o


def command(r, nact, i):
    k = i % 3
    if k == 0:
        return r.standard_normal((nact, nact)), 'noise'
    V = np.zeros((nact, nact))
    if k == 1:
        V[int(r.integers(nact)), int(r.integers(nact))] = 1 + r.random()
        return V, 'poke'
    V[0, :], V[:, -1] = r.standard_normal(nact), r.standard_normal(nact)
    return V, 'edge'


def show(o):
    return {k: v for k, v in o.items() if k != 'VtoH'}


def run_case(case, mon):
    r = rng_of(case)
    i = case['i']
    {'surface': surface, 'diff': diff, 'cube': cube, 'prop': prop}[case['kind']](r, i, mon)


def surface(r, i, mon):
    nact, o = options(r, i)
    dm = make(nact, r, o)
    dm.V, what = command(r, nact, i)
    N = int(r.choice([48, 61, 64, 100]))
    if dm.centering == 'interpixel':
        N += N % 2
    dx = nact*dm.dm_spacing/(float(r.uniform(0.6, 1.2))*N)
    V0 = dm.V.copy()
    S = falco.dm.gen_surf_from_act(dm, dx, N)
    e = reference(dm, dx, N)
    tol = 6e-3 if 'inf' in o else 2e-3
    mon.close(S, e, 'surface', 'DM surface is not the superposition of placed influence functions', rtol=tol, atol=1e-15,
              scale=max(np.abs(e).max(), np.abs(dm.VtoH*V0).max()), what=what, opts=show(o), N=N)
    mon.equal(dm.V, V0, 'surface-keeps-V', 'a valid command is changed by making the surface')
    # linear in the command
    V1 = r.standard_normal((nact, nact))
    dm.V = V1.copy()
    S1 = falco.dm.gen_surf_from_act(dm, dx, N)
    a = float(r.uniform(-3, 3))
    dm.V = V0+a*V1
    mon.close(falco.dm.gen_surf_from_act(dm, dx, N), S+a*S1, 'linear', 'surface is not linear in the command', rtol=1e-9,
              scale=(np.abs(S)+abs(a)*np.abs(S1)).max(), opts=show(o))
    dm.V = V0.copy()
    mon.equal(falco.dm.gen_surf_from_act(dm, dx, N), S, 'repeatable', 'same command, another surface', opts=show(o))
    # a larger array only adds samples
    n2 = N + 2*int(r.integers(1, 10))
    mon.close(falco.util.pad_crop(falco.dm.gen_surf_from_act(dm, dx, n2), N), S, 'array-size', 'surface depends on the array size', rtol=1e-6, atol=1e-15,
              scale=max(np.abs(S).max(), np.abs(dm.VtoH*V0).max()*0.1), opts=show(o), N=N, n2=n2)
    mon.seen('surface', what, tuple(sorted(show(o))), o.get('orientation'), N % 2, nact % 2)
    mon.sample(nact=nact, N=N, opts=show(o))


def diff(r, i, mon):
    nact, o = options(r, i)
    if 'tilt' in o and r.random() < 0.5:
        o['tilt'] = (0., 0., 0.)
    dm = make(nact, r, o)
    N = 64
    dx = nact*dm.dm_spacing/(float(r.uniform(0.75, 0.9))*N)
    c = max(2, nact//2-2)
    V = np.zeros((nact, nact))
    V[c-1:c+3, c-1:c+3] = r.standard_normal((4, 4))
    dm.V = V.copy()
    dm.useDifferentiableModel = True
    with configs.quiet():
        S = falco.dm.gen_surf_from_act(dm, dx, N)
        dm.V = 2*V
        S2 = falco.dm.gen_surf_from_act(dm, dx, N)
        dm.V = V.copy()
        big = falco.dm.gen_surf_from_act(dm, dx, N+8)
        again = falco.dm.gen_surf_from_act(dm, dx, N)
    e = reference(dm, dx, N)
    mon.close(S, e, 'differentiable-surface', 'surface of the differentiable model', rtol=1e-2 if 'inf' not in o else 2.5e-2, opts=show(o), nact=nact)
    mon.close(S2, 2*S, 'differentiable-update', 'differentiable model does not follow a new command', rtol=1e-9, opts=show(o))
    mon.close(again, S, 'differentiable-repeat', 'differentiable model remembers another array size', rtol=1e-9, opts=show(o))
    mon.close(falco.util.pad_crop(big, N), S, 'differentiable-size', 'differentiable model depends on the array size', rtol=5e-3, opts=show(o))
    mon.seen('diff', tuple(sorted(show(o))), o.get('orientation'), nact % 2)
    # adjoint, exact without rotation
    flat = dm.xtilt == 0 and dm.ytilt == 0 and dm.zrot == 0
    if flat:
        W = r.standard_normal((N, N))
        H = r.standard_normal((nact, nact))
        H[0, :] = H[-1, :] = H[:, 0] = H[:, -1] = 0
        m = dm.differentiableModel
        m.update(H.copy())
        a = np.sum(m.render(Nout=N, wfe=False)*W)
        b = np.sum(m.render_backprop(W.copy(), wfe=False)*H)
        lim = np.abs(m.render(Nout=N, wfe=False)).sum()*np.sqrt(np.mean(W**2))
        mon.close(a, b, 'adjoint', 'back-propagation is not the adjoint of rendering', atol=3e-3*lim, rtol=0, opts=show(o), nact=nact)
        mon.count('adjoint identities tested')


def cube(r, i, mon):
    nact, o = options(r, i)
    nact = 12
    kw = dict(centering=o['centering'])
    for k in (1, 2):
        kw['dmc%d' % k] = tuple(float(x) for x in 5.5+r.uniform(-1, 1, 2)*(r.random() < 0.6))
        kw['orient%d' % k] = str(ORI[int(r.integers(8))])
        if r.random() < 0.5:
            kw['tilt%d' % k] = tuple(float(x) for x in r.uniform(-12, 12, 3))
        kw['VtoH%d' % k] = 1e-9*r.uniform(0.5, 2, (12, 12))
    kw['inf_sign'] = '-' if r.random() < 0.3 else '+'
    kw['flagZYX'] = bool(r.random() < 0.4)
    mp, _ = configs.fleshed('LC', **kw)
    configs.set_v(mp, r, 20.)
    for dm in (mp.dm1, mp.dm2):
        N = int(dm.compact.NdmPad)
        if len(dm.act_ele) < dm.NactTotal:
            V = np.zeros(dm.NactTotal)
            V[dm.act_ele] = dm.V.ravel()[dm.act_ele]
            dm.V = V.reshape(dm.V.shape)
        S = falco.dm.gen_surf_from_poke_cube(dm, 'compact')
        e = reference(dm, dm.compact.dx, N)
        mon.close(S, e, 'cube', 'influence cube disagrees with the DM surface', rtol=4e-3, opts=kw_show(kw))
        mon.seen('cube', tuple(sorted(kw_show(kw))), getattr(dm, 'orientation', ''), dm.centering)


def kw_show(kw):
    return {k: v for k, v in kw.items() if not k.startswith('VtoH')}


def prop(r, i, mon):
    """the surface maker applied to a PROPER wavefront adds twice the surface"""
    nact, o = options(r, i)
    dm = make(nact, r, o)
    dm.V, what = command(r, nact, i)
    N = 64
    dx = nact*dm.dm_spacing/(0.8*N)
    H = dm.VtoH*dm.V
    kw = dict(XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
    kw['ZYX' if getattr(dm, 'flagZYX', False) else 'XYZ'] = True
    wl = 0.6e-6
    wf = falco.proper.prop_begin(N*dx, wl, N, 1.0)
    s = falco.dm.propcustom_dm(wf, H.copy(), dm.xc, dm.yc, dm.dm_spacing, **kw)
    E = falco.proper.prop_get_wavefront(wf)
    dm.centering = 'pixel'
    if hasattr(dm, 'orientation'):
        dm.orientation = 'rot0'
    e = reference(dm, dx, N, H)
    mon.close(s, e, 'propcustom', 'surface', rtol=6e-3 if 'inf' in o else 2e-3, scale=max(np.abs(e).max(), 0.1*np.abs(H).max()), opts=show(o))
    mon.close(E, np.exp(4j*np.pi*s/wl), 'propcustom-phase', 'reflected phase is not twice the surface', rtol=1e-9, opts=show(o))
    wf = falco.proper.prop_begin(N*dx, wl, N, 1.0)
    s2 = falco.dm.propcustom_dm(wf, H.copy(), dm.xc, dm.yc, dm.dm_spacing, NO_APPLY=True, **kw)
    mon.equal(s2, s, 'propcustom-noapply', 'NO_APPLY changes the surface')
    mon.close(falco.proper.prop_get_wavefront(wf), np.ones((N, N)), 'propcustom-noapply', 'NO_APPLY changes the wavefront', rtol=1e-12)
    # the mirror is N actuators across the beam: same as that spacing
    if 'tilt' not in o:
        n = int(r.integers(4, nact+1))
        wf = falco.proper.prop_begin(N*dx*0.8, wl, N, 0.8)
        sp = N*dx*0.8/n
        a = falco.dm.propcustom_dm(wf, H.copy(), dm.xc, dm.yc, N_ACT_ACROSS_PUPIL=n, NO_APPLY=True, **kw)
        b = falco.dm.propcustom_dm(wf, H.copy(), dm.xc, dm.yc, sp, NO_APPLY=True, **kw)
        mon.close(a, b, 'propcustom-nact', 'actuators across the pupil', rtol=1e-9, atol=1e-20)
    mon.seen('prop', what, tuple(sorted(show(o))))
