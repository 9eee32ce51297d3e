"""C09 mode sources inject the requested waveguide mode and power"""
import itertools

import numpy as np

from mc import ref
from mc.util import *

RULE = ('every polarization x direction x waveguide x line position (all outside of the PML) x order x scale; profile compared with a '
        'dense eigenvalue solution of the slice, input power with the reference fields of the equivalent straight waveguide; then '
        'every order of adding 2-3 modes, repeated set-up and changed scale')
BOUND = {'quick': '9 waveguides (low and high index, clad, of two materials, graded, lossy, uniform), domains of 12 to 40 cells, all line positions, orders 1..3, 4 scales', 'thorough': '16 waveguides, orders 1..3'}
ASSUMPTIONS = ['modes whose eigenvalue is closer than 2% of the spacing to another one are not compared (arbitrary mixtures)']

# (transverse size, first guide cell, guide cells, eps, guess of the index, NPML, dl)
# eighth field: cladding ('clad'), a second material in half of the guide ('half'), graded ('grade')
GUIDES = [(16, 6, 4, 6.0, 2.3, 2, 0.1), (17, 5, 3, 12.0, 3.2, 3, 0.1), (20, 8, 5, 2.25, 1.45, 0, 0.15), (20, 7, 6, 1.4, 1.15, 2, 0.2), (20, 8, 4, 12.0, 3.2, 2, 0.1, 'clad'),
          (18, 6, 4, 6.0 - 1.5j, 2.3, 2, 0.1, 'lossy'), (18, 6, 6, 6.0, 2.3, 2, 0.1, 'half'), (17, 6, 5, 5.0, 2.0, 2, 0.12, 'grade'), (14, 0, 14, 2.25, 1.45, 0, 0.1, 'flat'), (15, 3, 8, 4.0, 1.95, 2, 0.08),
          (21, 8, 6, 12.1, 3.4, 3, 0.1), (18, 9, 4, 6.0, 2.3, 2, 0.12), (24, 9, 7, 3.5, 1.8, 4, 0.1), (19, 7, 5, 2.5, 1.5, 2, 0.2),
          (16, 2, 4, 6.0, 2.3, 0, 0.1), (22, 8, 6, 9.0, 2.9, 3, 0.07)]
LEN = 14
SCALES = {0: (OM, 1, 1e-6), 1: (1.6*OM, 1/1.6, 1e-6), 2: (OM, 1000, 1e-9), 3: (OM/150, 0.15, 1e-3), 4: (OM/2e6, 2, 1.0)}       # frequency, factor of the spacing, unit: the same guides


def cases(tier):
    q = tier == 'quick'
    out = []
    for g, pol, d in itertools.product(range(9 if q else len(GUIDES)), ('Ez', 'Hz'), 'xy'):
        n = 3 if q else 2
        for c in range(-LEN + n, LEN - n):
            if c < 0 and (c % LEN < n or c == -1):
                continue
            if 0 <= c < n:
                continue
            out.append(dict(kind='one', guide=g, pol=pol, dir=d, c=c, dev=(c % 3 == 0), sc=len(out) % 5))
        # domains of other lengths and boundaries, strong and single sources beside the mode
        N, lossy = GUIDES[g][0], isinstance(GUIDES[g][3], complex)
        for len_, pl in [(13, 3), (15, 1), (N, 2), (12, 4), (40, 6)] + ([(14, 0), (13, 0)] if lossy else []):
            for c in (-4, len_//2 - 1) if pl != 4 else (-5,):
                out.append(dict(kind='one', guide=g, pol=pol, dir=d, c=c, dev=(c > 0), sc=len(out) % 5, len=len_, pl=pl, bg=('one', 'big', 'none')[len(out) % 3]))
        for perm in itertools.permutations(range(3), 2 if q else 3):
            out.append(dict(kind='many', guide=g, pol=pol, dir=d, order=perm, sc=len(out) % 5))
    return out


def slice_modes(e, dl, om, pol, L0):
    n = e.size
    B = np.zeros((n, n))
    for i in range(n):
        B[i, i] += 1
        B[i, (i - 1) % n] -= 1
    B /= dl
    k2 = om**2*ref.MU0*ref.EPS0*L0**2
    if pol == 'Ez':
        A = np.diag(k2*e) - B.T @ B
    else:
        A = np.diag(k2*e) - np.diag(e) @ B.T @ np.diag(1/ref.edge_avg(e, 0)) @ B
    v, V = np.linalg.eig(A)
    if not np.iscomplexobj(e):
        v, V = v.real, V.real
    return v, V, k2


def profile(e, dl, pol, neff, order, om=OM, L0=1e-6):
    """reference profile (unit norm, first lobe positive) or None if it is not well defined"""
    v, V, k2 = slice_modes(e, dl, om, pol, L0)
    d = np.abs(v - k2*neff**2)
    ix = np.argsort(d)
    i = ix[order-1]
    others = np.delete(v, i)
    gap = np.min(np.abs(others - v[i]))
    tie = np.min(np.abs(np.delete(d, i) - d[i]))
    if gap < 0.02*k2 or tie < 1e-3*k2:
        return None
    x = V[:, i]/np.linalg.norm(V[:, i])
    a = np.abs(x)
    first = np.flatnonzero(a > a.max()/2)[0]
    if np.min(np.abs(a - a.max()/2)) < 1e-4*a.max():
        return None
    if np.iscomplexobj(x):          # the real profile of a complex mode
        x = x*np.exp(-1j*np.angle(x[first]))
        if np.min(np.abs(x.real)/a) < 1e-3:
            return None
        return a*np.sign(x.real)
    return x*np.sign(x[first])


def build(case):
    N, a, w, em, neff, npml, dl = GUIDES[case['guide']][:7]
    om, f, L0 = SCALES[case.get('sc', 0)]
    dl = dl*f
    kind = GUIDES[case['guide']][7:]
    line = np.full(N, 2.1 if kind == ('clad',) else 1.0, dtype=type(em))
    line[a:a + w] = em
    if kind == ('half',):
        line[a:a + w//2] = 3.4
    elif kind == ('grade',):
        line[a:a + w] = em - np.abs(np.arange(w) - w//2)*0.8
    eps = np.tile(line, (case.get('len', LEN), 1))
    mid = a + (w + 1)//2
    if case.get('pl') == 0:
        npml = 0
    width = min(2*min(mid, N - mid), N - 2*npml - 1 if npml else N)
    lo, hi = int(mid - width/2), int(mid + width/2)
    return dict(N=N, line=line, eps=eps, mid=mid, width=width, lo=lo, hi=hi, neff=neff, npml=npml, dl=dl, em=em, om=om, L0=L0)


def orient(a, d):
    return a if d == 'x' else a.T


def run(case, ctx):
    (run_one if case['kind'] == 'one' else run_many)(case, ctx)


def run_one(case, ctx):
    g = build(case)
    pol, d, c = case['pol'], case['dir'], case['c']
    dl, npml, om, L0 = g['dl'], g['npml'], g['om'], g['L0']
    LEN, pl = case.get('len', globals()['LEN']), case.get('pl', 3)
    cp = c % LEN
    eps = g['eps'].copy()
    if case['dev']:                 # a device elsewhere must not matter
        for r in range(LEN):
            if abs(r - cp) > 1:
                eps[r, g['N']//4:g['N']//4 + 2] = g['em']
                eps[r, -3] = 1.7
    eps = np.ascontiguousarray(orient(eps, d))
    NP = (pl, npml) if d == 'x' else (npml, pl)
    center = [c, g['mid']] if d == 'x' else [g['mid'], c]
    bg = 0.01*src_of('gen', eps.shape)
    if c % 4 == 1:                  # sources of other types hold a mode as well
        bg = [np.arange(bg.size).reshape(bg.shape) % 3, bg.real.copy(), np.zeros(bg.shape, bool)][c//4 % 3]
    if 'bg' in case:
        bg = bg*{'one': 0, 'big': 1e5, 'none': 0}[case['bg']]
        if case['bg'] == 'one':
            bg[1, 2] = 3
    orders = (1, 2, 3) if c % 4 else (1, 2, 3, 4, 5)
    for order, scale in itertools.product(orders, (1, 7.5, 1e-3, -2.0)):
        x = profile(g['line'][g['lo']:g['hi']], dl, pol, g['neff'], order, om, L0)
        if x is None:
            continue
        where = 'order %d scale %g: %s' % (order, scale, case)
        s = sim_of(om, eps, dl, NP, pol, L0)
        keep = eps.copy()
        s.src = bg.copy()
        s.add_mode(g['neff'], d, list(center), g['width'], scale=scale, order=order)
        ctx.check(np.array_equal(s.src, bg), 'adding a mode changed the source before the set-up')
        s.setup_modes()
        ctx.op('setup', 2)
        ctx.state(case['guide'], pol, d, c, order, scale)
        S = orient(np.asarray(s.src), d)
        want = orient(bg, d).astype(complex)
        want[cp, g['lo']:g['hi']] = scale*x
        err = np.abs(S - want)
        ctx.check(np.array_equal(np.delete(S, cp, 0), np.delete(want, cp, 0)), lambda: 'the mode wrote outside of its line: ' + where)
        ctx.check(np.max(err[cp]) < 3e-4*abs(scale)*np.max(np.abs(x)), lambda: 'the profile differs by %.3g of its maximum from mode %d of the '
                  'slice: %s' % (np.max(err[cp])/abs(scale)/np.max(np.abs(x)), order, where))
        ctx.check(np.array_equal(s.eps_r, keep) and np.array_equal(eps, keep), 'setting up a mode changed the structure')
        # input power: the equivalent straight waveguide, this mode alone, probed at the mirrored position
        m = ref.Model(om, orient(g['eps'], d), dl, NP, pol, L0)
        src = np.zeros((LEN, g['N']), complex)
        src[cp, g['lo']:g['hi']] = S[cp, g['lo']:g['hi']]
        X, Y, Z = m.solve_sparse(orient(src, d))
        p = (LEN - cp) % LEN
        if d == 'x':
            sx = (-np.real(ref.edge_avg(Z, 0)*np.conj(Y)) if pol == 'Ez' else np.real(Y*np.conj(ref.edge_avg(Z, 0))))/2
            P = dl*np.sum(sx[p, g['lo']:g['hi']])
        else:
            sy = (np.real(ref.edge_avg(Z, 1)*np.conj(X)) if pol == 'Ez' else -np.real(X*np.conj(ref.edge_avg(Z, 1))))/2
            P = dl*np.sum(sy[g['lo']:g['hi'], p])
        if p >= pl and p <= LEN - pl and abs(p - cp) > 1:
            ctx.check(abs(abs(s.W_in) - abs(P)) < 1e-5*abs(P) and (s.W_in*P > 0 or cp >= LEN//2),
                      lambda: 'input power %.6g, the mode carries %.6g: %s' % (s.W_in, P, where))
        # again: nothing changes
        first, W = np.array(s.src), s.W_in
        s.setup_modes()
        ctx.check(np.max(np.abs(s.src - first)) < 1e-5*abs(scale) and abs(s.W_in - W) < 1e-5*abs(W), lambda: 'setting up twice changes the source or power: ' + where)
        ctx.trace_ok()


def run_many(case, ctx):
    """several modes: each on its line, W_in of the last one alone, any scale change is picked up"""
    g = build(case)
    pol, d, dl, npml, om, L0 = case['pol'], case['dir'], g['dl'], g['npml'], g['om'], g['L0']
    eps = np.ascontiguousarray(orient(g['eps'], d))
    NP = (3, npml) if d == 'x' else (npml, 3)
    x = profile(g['line'][g['lo']:g['hi']], dl, pol, g['neff'], 1, om, L0)
    if x is None:
        return
    pos = [4, 5, LEN - 5]
    W = {}
    for i in case['order']:
        for k in pos:
            center = [k, g['mid']] if d == 'x' else [g['mid'], k]
            s = sim_of(om, eps, dl, NP, pol, L0)
            s.add_mode(g['neff'], d, center, g['width'], scale=1 + i)
            s.setup_modes()
            W[i, k] = s.W_in
            ctx.op('alone', 2)
    s = sim_of(om, eps, dl, NP, pol, L0)
    want = np.zeros((LEN, g['N']), complex)
    for n, i in enumerate(case['order']):
        k = pos[i]
        s.add_mode(g['neff'], d, [k, g['mid']] if d == 'x' else [g['mid'], k], g['width'], scale=1 + i)
        want[k, g['lo']:g['hi']] = (1 + i)*x
    keep = [list(mo.center) for mo in s.modes]
    s.setup_modes()
    ctx.op('setup', 2)
    S = orient(np.asarray(s.src), d)
    ctx.check(np.max(np.abs(S - want)) < 1e-3, lambda: 'several modes: wrong source, %s' % case)
    last = case['order'][-1]
    ctx.check(abs(s.W_in - W[last, pos[last]]) < 1e-5*abs(s.W_in), lambda: 'the input power %.6g of the last mode includes the others (alone: %.6g), %s'
              % (s.W_in, W[last, pos[last]], case))
    ctx.check([list(mo.center) for mo in s.modes] == keep, 'the set-up changed the definition of a mode')
    # change the scale of the last mode, set up again
    s.modes[-1].scale = 10.0*(1 + last)
    s.setup_modes()
    want[pos[last], g['lo']:g['hi']] *= 10
    ctx.check(np.max(np.abs(orient(np.asarray(s.src), d) - want)) < 1e-2, lambda: 'the changed scale is not used, %s' % case)
    ctx.check(abs(s.W_in - 100*W[last, pos[last]]) < 1e-4*abs(s.W_in), lambda: 'the input power does not grow with the square of the scale, %s' % case)
    # the fields are those of all sources together
    m = ref.Model(om, eps, dl, NP, pol, L0)
    F = m.solve_sparse(np.asarray(s.src))
    G = s.solve_fields()
    ctx.check(rel(G[2], F[2]) < 1e-7, 'fields of several modes')
    ctx.state(case['guide'], pol, d, tuple(case['order']))
    ctx.trace_ok()
