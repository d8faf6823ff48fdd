"""P03: vortex focal-plane-mask propagation."""
import numpy as np
from falco import prop
from rv.core import rng_of

RULE = ('vortex charges 1..8, beam radii, window radii and array sizes; circular pupils against the analytic even-charge '
        'solution, random fields against linearity, adjointness and rotation covariance; distinct = (kind, charge, sizes)')


def cases(tier, seed):
    n = 4 if tier == 'quick' else 30
    out = []
    for i in range(n):
        for ch in (2, 4, 6):
            out.append(dict(kind='null', charge=ch, i=i, seed=seed))
        for k in ('adjoint', 'linear', 'zero', 'handed'):
            out.append(dict(kind=k, i=i, seed=seed))
    return out


def disk(N, rad):
    """anti-aliased disk, pixel centred"""
    s = 9
    o = (np.arange(s) - (s-1)/2)/s
    x = (np.arange(N) - N//2)
    acc = np.zeros((N, N))
    for a in o:
        for b in o:
            acc += ((x[None, :]+a)**2 + (x[:, None]+b)**2) <= rad**2
    return acc/s**2


def run_case(case, mon):
    r = rng_of(case)
    k = case['kind']
    inV, outV = 0.3, 5.0
    if r.random() < 0.5:
        inV = float(r.uniform(0.2, 0.5))
        outV = float(r.uniform(4.5, 7))
    R = float(r.integers(16, 28)) if k != 'null' else float(r.integers(24, 40))
    NA = 2*int(np.ceil(R*r.uniform(1.05, 1.4)))
    if k == 'null':
        ch = case['charge']
        NA = 2*int(np.ceil(R*1.6))
        p = disk(NA, R)
        out = prop.mft_p2v2p(p, ch, R, inV, outV)
        x = np.arange(NA) - NA//2
        rho = np.hypot(x[None, :], x[:, None])
        th = np.arctan2(x[:, None] + 0*rho, x[None, :] + 0*rho)
        inside = rho < 0.85*R
        inside2 = rho < 0.95*R
        mon.check(np.mean(np.abs(out[inside2])**2) < 3e-3, 'null-inside', 'even-charge vortex leaks inside a clear circular pupil',
                  mean=np.mean(np.abs(out[inside2])**2), charge=ch, R=R)
        u = R/np.maximum(rho, 1)
        amp = {2: u**2, 4: 3*u**4 - 2*u**2, 6: 10*u**6 - 12*u**4 + 3*u**2}[ch]
        ann = (rho > 1.12*R) & (rho < 1.5*R)
        got = np.abs(out[ann])
        mon.close(got, np.abs(amp[ann]), 'ring-amplitude', 'light is not relocated outside the pupil as for an ideal vortex',
                  rtol=0, atol=0.12, charge=ch, R=R)
        ph = np.angle(out[ann]*np.exp(-1j*ch*th[ann]) * np.sign(amp[ann]))
        coh = np.abs(np.mean(out[ann]*np.exp(-1j*ch*th[ann])*np.sign(amp[ann])*np.abs(amp[ann])))/np.mean(np.abs(out[ann])*np.abs(amp[ann]))
        coh2 = np.abs(np.mean(out[ann]*np.exp(1j*ch*th[ann])*np.sign(amp[ann])*np.abs(amp[ann])))/np.mean(np.abs(out[ann])*np.abs(amp[ann]))
        mon.check(max(coh, coh2) > 0.97, 'ring-phase', 'relocated light does not carry the vortex phase', coh=coh, coh2=coh2, charge=ch)
        mon.seen(k, ch, R, round(inV, 2), round(outV, 1))
        mon.sample(charge=ch, R=R, NA=NA, leak=float(np.mean(np.abs(out[inside2])**2)))
        return
    ch = int(r.integers(1, 9))
    A = r.normal(size=(NA, NA)) + 1j*r.normal(size=(NA, NA))
    B = r.normal(size=(NA, NA)) + 1j*r.normal(size=(NA, NA))
    A0 = A.copy()
    fA = prop.mft_p2v2p(A, ch, R, inV, outV)
    mon.equal(A, A0, 'input-mutated', 'vortex propagation changed its input')
    mon.check(fA.shape == A.shape, 'shape', 'output grid differs from input grid')
    if k == 'adjoint':
        gB = prop.mft_p2v2p(B, ch, R, inV, outV, reverseGradient=True)
        mon.close(np.vdot(B, fA), np.vdot(gB, A), 'adjoint', 'the reverse-gradient propagator is not the adjoint of the forward one',
                  rtol=1e-9, scale=np.linalg.norm(B)*np.linalg.norm(fA), charge=ch)
    elif k == 'linear':
        c = complex(r.normal(), r.normal())
        mon.close(prop.mft_p2v2p(A+c*B, ch, R, inV, outV), fA+c*prop.mft_p2v2p(B, ch, R, inV, outV), 'linear', 'not linear', rtol=1e-9)
    elif k == 'zero':
        # a zero-charge mask is transparent: two transforms, i.e. a 180-degree rotation (band-limited input)
        x = (np.arange(NA) - NA//2)/R
        g = np.exp(-((x[None, :]-0.1)/0.3)**2 - ((x[:, None]+0.15)/0.25)**2)*np.exp(2j*np.pi*(x[None, :]*0.7 - 0.4*x[:, None]))
        out = prop.mft_p2v2p(g, 0, R, inV, outV)
        ref = np.roll(g[::-1, ::-1], (1, 1), (0, 1))
        sel = np.s_[2:-2, 2:-2]
        mon.close(out[sel], ref[sel], 'charge-zero', 'a vortex of charge 0 is not transparent', rtol=2e-4)
    else:
        # mirror symmetry: reversing one axis of the input reverses the handedness of the vortex
        ax = int(r.integers(2))
        x = (np.arange(NA) - NA//2)/R
        S = np.exp(-((x[None, :]-0.2)/0.35)**2 - ((x[:, None]+0.25)/0.3)**2)*np.exp(2j*np.pi*(x[None, :]*1.7 - 0.9*x[:, None]))

        def mirror(a):
            return np.roll(np.flip(a, ax), 1, ax)
        mon.close(prop.mft_p2v2p(S, -ch, R, inV, outV)[1:, 1:],
                  mirror(prop.mft_p2v2p(mirror(S), ch, R, inV, outV))[1:, 1:],
                  'handedness', 'opposite charge is not the mirror image', rtol=2e-4)
        # rotating the input by 90 degrees rotates the output and multiplies it by the vortex phase factor

        def rot(a):
            return np.roll(np.rot90(a), 1, 0)
        q = prop.mft_p2v2p(S, ch, R, inV, outV)
        q2 = prop.mft_p2v2p(rot(S), ch, R, inV, outV)
        c = np.vdot(rot(q), q2)/np.vdot(q, q).real
        mon.close(abs(c), 1.0, 'rotation-covariance', 'a rotated input does not give the rotated output', rtol=0.02, charge=ch)
        mon.close(min(abs(c - 1j**ch), abs(c - (-1j)**ch)), 0.0, 'rotation-phase', 'the rotation phase is not that of the charge',
                  atol=0.02, charge=ch, c=c)
    mon.seen(k, ch, NA)
