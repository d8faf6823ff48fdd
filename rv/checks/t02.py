"""T02: hybrid Lyot masks made of layers.  The layer surfaces, the mask of every
sub-band and wavelength, the mask stack and what the two optical models see are
compared with films computed one stack at a time at each pixel's thicknesses."""
import numpy as np

from rv.core import rng_of
from rv.checks.t01 import Disk, film, params

RULE = ('layer surfaces are the superposed influences of their commands; every mask pixel is the film value at its '
        'thicknesses and wavelength; both optical models use that mask')
NPROC = 8


def cases(tier, seed):
    return [dict(kind='mask', i=i, seed=seed) for i in range(dict(quick=12, thorough=140)[tier])]


def run_mask(case, mon):
    """masks of a hybrid Lyot coronagraph through the table, the mask functions and the models"""
    import falco
    from rv import configs
    r = rng_of(case)
    nw = int(r.choice([1, 3]))
    mp = configs.build('HLC', layout='Fourier', Nsbp=int(r.choice([1, 2, 3])), Nwpsbp=nw, fracBW=0.1)
    for a in (mp.full, mp.compact):
        if hasattr(a, 'fpmCube'):
            delattr(a, 'fpmCube')
    mp.dm8, mp.dm9 = falco.config.Object(), falco.config.Object()
    mp.F3.Rin = mp.F3.RinA = 2.7
    mp.dm9.inf0name, mp.dm9.actres, mp.dm9.FPMbuffer = '3x3', int(r.choice([1, 2])), 0.2
    mp.dm9.V0coef, mp.dm8.V0coef = float(r.uniform(0, 300)), float(r.uniform(0, 120))
    p = params(r)
    mp.F3.substrate, mp.F3.metal, mp.F3.dielectric, mp.F3.d0fac = p.F3.substrate, 'Ni', p.F3.dielectric, p.F3.d0fac
    mp.t_Ti_nm, mp.aoi = p.t_Ti_nm, p.aoi
    mp.dt_metal_nm, mp.dt_diel_nm = 10., 25.
    mp.t_metal_nm_vec = np.arange(0, 105, mp.dt_metal_nm)
    mp.t_diel_nm_vec = np.arange(0, 610, mp.dt_diel_nm)
    mp.t_diel_bias_nm = float(r.choice([0, 100.]))
    with Disk():
        ok, _ = mon.runs(lambda: falco.setup.flesh_out_workspace(mp), 'mask-setup', mp.dm9.inf0name)
        if not ok:
            return
        r2 = rng_of(dict(case, part=2))
        mp.dm9.V = r2.uniform(-50, 500, np.size(mp.dm9.V))
        mp.dm8.V = r2.uniform(-10, 150, np.size(mp.dm8.V))
        surf = {}
        for name, dm in (('dm8', mp.dm8), ('dm9', mp.dm9)):
            for typ, q in (('full', dm), ('compact', dm.compact)):
                s = np.zeros((q.NdmPad, q.NdmPad))
                for k in range(dm.NactTotal):
                    x0, y0 = int(round(q.xy_box_lowerLeft[0, k])), int(round(q.xy_box_lowerLeft[1, k]))
                    s[y0:y0+q.Nbox, x0:x0+q.Nbox] += dm.V[k]*dm.VtoH[k]*q.inf_datacube[:, :, k]
                surf[name, typ] = np.maximum(s, 0)
                ok, got = mon.runs(lambda: falco.hlc.gen_fpm_surf_from_cube(dm, typ), 'surf-runs')
                if ok:
                    mon.close(got, surf[name, typ], 'mask-surface', '%s %s' % (name, typ), rtol=1e-9, atol=1e-15)
        fpms = {}
        for typ, nlw in (('compact', 1), ('full', mp.Nwpsbp)):
            tmn = np.clip(1e9*surf['dm8', typ], mp.t_metal_nm_vec[0], mp.t_metal_nm_vec[-1])
            tdn = np.clip(mp.t_diel_bias_nm + 1e9*surf['dm9', typ], mp.t_diel_nm_vec[0], mp.t_diel_nm_vec[-1])
            fm, fd = tmn/mp.dt_metal_nm, tdn/mp.dt_diel_nm
            clear = (np.abs(fm % 1 - 0.5) > 1e-6) & (np.abs(fd % 1 - 0.5) > 1e-6)   # rounding is not a tie
            im, idl = np.round(fm).astype(int), np.round(fd).astype(int)
            for s in range(mp.Nsbp):
                for w in range(nlw):
                    lam = mp.sbp_centers[s] if typ == 'compact' else mp.full.lambdasMat[s, w]
                    ok, got = mon.runs(lambda: falco.hlc.gen_fpm_from_LUT(mp, s, w, typ), 'mask-runs', typ)
                    if not ok:
                        continue
                    memo = {}
                    for i, j in set(zip(im[clear].tolist(), idl[clear].tolist())):
                        memo[i, j] = film(mp.F3.substrate, mp.F3.dielectric, lam, mp.aoi, 1e-9*mp.t_Ti_nm, 1e-9*mp.t_metal_nm_vec[i],
                                          1e-9*mp.t_diel_nm_vec[j], lam*mp.F3.d0fac, 2)[0]
                    ref = np.array([memo[i, j] for i, j in zip(im[clear], idl[clear])])
                    mon.close(np.asarray(got)[clear], ref, 'mask-value', '%s mask of sub-band %d of %d, wavelength %d of %d'
                              % (typ, s, mp.Nsbp, w, nlw), rtol=0, atol=1e-8)
                    mon.count('mask pixels compared', int(clear.sum()))
                    fpms[typ, s, w] = np.asarray(got)
            ok, cube = mon.runs(lambda: falco.hlc.gen_fpm_cube_from_LUT(mp, typ), 'cube-runs', typ)
            if ok:
                cube = np.asarray(cube[0])
                for s in range(mp.Nsbp):
                    for w in range(nlw):
                        k = s if nlw == 1 else s*(nlw - 1) + w
                        if (typ, s, w) in fpms:
                            mon.close(cube[:, :, k], fpms[typ, s, w], 'mask-stack', '%s (%d, %d)' % (typ, s, w), rtol=0, atol=1e-9)
        # the models see those masks
        m = falco.config.ModelVariables()
        m.starIndex, m.zernIndex, m.whichSource = 0, 1, 'star'
        for s in range(mp.Nsbp):
            for w in range(mp.Nwpsbp):
                if ('full', s, w) not in fpms:
                    continue
                m.sbpIndex, m.wpsbpIndex = s, w
                if hasattr(mp.full, 'fpmCube'):
                    delattr(mp.full, 'fpmCube')
                e1 = falco.model.full(mp, m)
                mp.full.fpmCube = np.repeat(fpms['full', s, w][:, :, None], mp.Nsbp*mp.Nwpsbp, axis=2)
                e2 = falco.model.full(mp, m)
                delattr(mp.full, 'fpmCube')
                mon.close(e1, e2, 'model-full-mask', 'sub-band %d wavelength %d' % (s, w), rtol=1e-7)
            m.sbpIndex, m.wpsbpIndex = s, -1
            if ('compact', s, 0) in fpms:
                e1 = falco.model.compact(mp, m)
                mp.compact.fpmCube = np.repeat(fpms['compact', s, 0][:, :, None], mp.Nsbp, axis=2)
                e2 = falco.model.compact(mp, m)
                delattr(mp.compact, 'fpmCube')
                mon.close(e1, e2, 'model-compact-mask', 'sub-band %d' % s, rtol=1e-7)
    mon.seen('mask', mp.Nsbp, mp.Nwpsbp, mp.t_diel_bias_nm > 0, mp.dm9.actres, mp.F3.dielectric)


def run_case(case, mon):
    run_mask(case, mon)
