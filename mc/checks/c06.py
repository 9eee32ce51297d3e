"""C06 power is conserved: flux through every box = power of the sources inside - absorbed power"""
import itertools

import numpy as np

from mc import ref
from mc.util import *

RULE = ('every polarization x grid x PML pair x material x source; in each, EVERY probe line outside of the PML is '
        'measured with the real probe, compared with the Poynting vector of the solved fields, and the balance is '
        'checked for EVERY box (all corner pairs)')
BOUND = {'quick': 'grids up to 12x12, 7 scales, all probe lines and boxes', 'thorough': 'grids up to 17x15, all probe lines and boxes'}
ASSUMPTIONS = ['probe lines lie inside of the domain and outside of the PML']


def cases(tier):
    q = tier == 'quick'
    shapes = [((6, 5), (0, 0)), ((9, 8), (2, 2)), ((9, 9), (1, 2)), ((10, 11), (2, 3)), ((11, 8), (3, 0)), ((7, 10), (0, 2))]
    kinds = ['vac', 'slabx', 'gen', 'lossy', 'metal', 'F']
    srcs = ['mid', 'gen', 'cell']
    if not q:
        shapes += [((17, 15), (3, 3)), ((15, 15), (1, 4)), ((12, 17), (0, 1))]
        kinds += ['slaby', 'check', 'T', 'int']
        srcs += ['line', 'huge']
    out = []
    for (s, n), p, k, sk in itertools.product(shapes, ('Ez', 'Hz'), kinds, srcs):
        for nl in ((False, True) if p == 'Ez' and sk == 'mid' and k != 'metal' else (False,)):
            if sk == 'cell':
                sk = 'cell%d' % ((n[0] + 1)*s[1] + n[1] + 1)
            out.append(dict(shape=s, npml=n, pol=p, eps=k, src=sk, nl=nl))
    for ph, (s, n), p, k, nl in itertools.product(range(1, 6), [((9, 8), (2, 2)), ((8, 9), (0, 2))], ('Ez', 'Hz'), ['gen', 'lossy', 'gain', 'high', 'low'], (False, True, 'loss')):
        if p == 'Ez' or not nl:
            out.append(dict(shape=s, npml=n, pol=p, eps=k, src='gen', nl=nl, phys=ph))
    for i, ((s, n), p, k, amp) in enumerate(itertools.product([((8, 8), (2, 2)), ((12, 10), (3, 1)), ((11, 1), (2, 0)), ((1, 10), (0, 2)), ((8, 6), (0, 0)), ((10, 9), (2, 0)), ((8, 12), (1, 3))], ('Ez', 'Hz'),
                                                            ['gen', 'lossy', 'neg', 'vac', 'high', 'check'], [1e-6, 1e6, 1])):
        if not q or (i + i//3) % 2:
            for nl in ((False, True) if p == 'Ez' and k in ('gen', 'lossy', 'high') and i % 4 < 2 else (False,)):
                out.append(dict(shape=s, npml=n, pol=p, eps=k, src=['gen', 'spread', 'real', 'mid'][i//2 % 4], amp=amp, nl=nl, phys=[6, 0, 1, 3, 2, 5, 4][i//3 % 7]))
    for k in ('gen', 'lossy', 'gain'):
        out.append(dict(shape=(9, 8), npml=(2, 2), pol='Ez', eps=k, src='mid', nl='loss'))
    return out


def center_of(lo, hi):
    """a probe centre and width that cover the cells lo..hi-1 (odd and even widths)"""
    w = hi - lo
    return lo + (w + 1)//2, w


def run(case, ctx):
    shape, npml, pol, nl = tuple(case['shape']), tuple(case['npml']), case['pol'], case['nl']
    eps = eps_of(case['eps'], shape)
    if npml == (0, 0):
        eps = eps - 0.2j
    w, dl, L0 = PHYS[case.get('phys', 0)]
    sim = sim_of(w, eps, dl, npml, pol, L0)
    src = src_of(case['src'], shape)*case.get('amp', 1)
    nine = False
    if nl:
        src = src*100
    sim.src = src
    F = sim.solve_fields()
    eps_t = np.asarray(eps).astype(complex)
    if nl:
        chi = 1e-19
        if 'phys' in case or nl == 'loss':
            chi = 0.02*(1 - 0.4j if nl == 'loss' else 1)*L0**2/np.max(np.abs(F[2]))**2
        sim.add_nl(chi, gen(shape, 4))
        F = sim.solve_fields_nl()[:3]
        eps_t = eps_t + 3*chi/L0**2*gen(shape, 4)*np.abs(F[2])**2
        lin = sim.solve_fields()
        ctx.check(rel(F[2], lin[2]) > 1e-7, 'the nonlinear case is not nonlinear: %s' % case)
    elif pol == 'Hz' and case['src'] == 'mid':      # both sets of fields, of different sources: each probe reads its own
        sim.src = 3*src
        sim.solve_fields_nl(solver_nl='born', Estart=3*np.asarray(F[2]))
        sim.src = src
        nine = True
    ctx.op('solve', 3)
    X, Y, Z = [np.asarray(f).astype(complex) for f in F]
    Nx, Ny = shape
    Zx, Zy = ref.edge_avg(Z, 0), ref.edge_avg(Z, 1)
    if pol == 'Ez':
        Sx, Sy = -0.5*np.real(Zx*np.conj(Y)), 0.5*np.real(Zy*np.conj(X))
        gain = -0.5*np.real(Z*np.conj(src))
        loss = -0.5*w*ref.EPS0*L0*eps_t.imag*np.abs(Z)**2
    else:
        Sx, Sy = 0.5*np.real(Y*np.conj(Zx)), -0.5*np.real(X*np.conj(Zy))
        gain = -0.5*np.real(np.conj(Z)*src)
        lx = -0.5*w*ref.EPS0*L0*ref.edge_avg(eps_t, 0).imag*np.abs(Y)**2
        ly = -0.5*w*ref.EPS0*L0*ref.edge_avg(eps_t, 1).imag*np.abs(X)**2
        loss = ref.edge_avg_T(lx, 0) + ref.edge_avg_T(ly, 1)
    amp = 0.5*np.max(np.abs(Z))*max(np.max(np.abs(X)), np.max(np.abs(Y)))*dl
    xr = range(npml[0], Nx - npml[0] + (1 if npml[0] else 0))
    yr = range(npml[1], Ny - npml[1] + (1 if npml[1] else 0))
    fx, fy = {}, {}
    for c, (lo, hi) in itertools.product(xr, itertools.combinations(range(npml[1], Ny - npml[1] + 1), 2)):
        cy, wd = center_of(lo, hi)
        v = sim.flux_probe('x', [c, cy], wd, nl=bool(nl))
        ctx.op()
        fx[c, lo, hi] = v
        want = dl*np.sum(Sx[c, lo:hi])
        ctx.check(abs(v - want) <= 1e-9*amp*wd, lambda: 'flux through the line x=%d, y in [%d,%d): probe says %.6g, the fields '
                  'carry %.6g (%s)' % (c, lo, hi, v, want, case))
        if nine:
            vn = sim.flux_probe('x', [c, cy], wd, nl=True)
            ctx.check(abs(vn - 9*v) <= 1e-8*amp*wd, lambda: 'the nonlinear fields are 3 times the linear ones, their flux is %.6g, not %.6g (%s)' % (vn, 9*v, case))
        if c - Nx < -1:
            vn = sim.flux_probe('x', [c - Nx, cy], wd, nl=bool(nl))
            ctx.check(vn == v, lambda: 'probe centre %d and %d are the same line but give %.6g and %.6g' % (c, c - Nx, v, vn))
    for c, (lo, hi) in itertools.product(yr, itertools.combinations(range(npml[0], Nx - npml[0] + 1), 2)):
        cx, wd = center_of(lo, hi)
        v = sim.flux_probe('y', [cx, c], wd, nl=bool(nl))
        ctx.op()
        fy[c, lo, hi] = v
        if nine:
            vn = sim.flux_probe('y', [cx, c], wd, nl=True)
            ctx.check(abs(vn - 9*v) <= 1e-8*amp*wd, lambda: 'the nonlinear fields are 3 times the linear ones, their flux is %.6g, not %.6g (%s)' % (vn, 9*v, case))
        want = dl*np.sum(Sy[lo:hi, c])
        ctx.check(abs(v - want) <= 1e-9*amp*wd, lambda: 'flux through the line y=%d, x in [%d,%d): probe says %.6g, the fields '
                  'carry %.6g (%s)' % (c, lo, hi, v, want, case))
    for (x0, x1), (y0, y1) in itertools.product(itertools.combinations(xr, 2), itertools.combinations(yr, 2)):
        out = fx[x1, y0, y1] - fx[x0, y0, y1] + fy[y1, x0, x1] - fy[y0, x0, x1]
        want = dl**2*np.sum((gain - loss)[x0:x1, y0:y1])
        ctx.state(shape, npml, pol, case['eps'], case['src'], nl, x0, x1, y0, y1)
        ctx.trace_ok()
        ctx.check(abs(out - want) <= (1e-6 if nl else 1e-8)*amp*(x1 - x0 + y1 - y0),
                  lambda: 'power balance of the box x[%d,%d) y[%d,%d): %.6g flows out, the sources '
                  'deliver %.6g (%s)' % (x0, x1, y0, y1, out, want, case))
