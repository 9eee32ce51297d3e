"""C03 the PML absorbs outgoing waves at both ends of both axes and occupies exactly NPML cells"""
import itertools

import numpy as np

from mc import ref
from mc.ref import EPS0, MU0
from mc.util import *

RULE = ('plane waves: every polarization x axis x PML thickness x cell size/frequency x background x transverse '
        'order x source position; the outgoing and returning discrete plane waves are separated exactly at each '
        'end.  point sources: every PML thickness pair x polarization, compared with a much larger domain')
BOUND = {'quick': 'PML 1..10 cells, 3 resolutions, 2 backgrounds, 2 angles; 9 thickness pairs in 2D',
         'thorough': 'PML 1..20 cells, 5 resolutions/length scales, 3 backgrounds, 3 angles; 36 pairs in 2D'}
ASSUMPTIONS = ['"absorbs" = returns at most 1.5x the amplitude of the quartic reference PML of the same thickness']


def cases(tier):
    out = []
    q = tier == 'quick'
    ns = [1, 2, 3, 4, 5, 7, 10] if q else list(range(1, 21))
    res = [(0.1, OM, 1e-6), (0.05, OM2, 1e-6), (100.0, OM, 1e-9)]
    if not q:
        res += [(0.07, OM2, 1e-6), (0.1e-3, OM, 1e-3)]
    for n in ns:
        for pol, axis in itertools.product(('Ez', 'Hz'), (0, 1)):
            for r, eb, order, off in itertools.product(res, (1, 2.25) if q else (1, 2.25, 4), (0, 1) if q else (0, 1, 2),
                                                       ((8, 15), (15, 6))):
                out.append(dict(kind='plane', n=n, pol=pol, axis=axis, res=r, eb=eb, order=order, off=off))
    pairs = [(3, 3), (2, 5), (5, 2), (0, 4), (4, 0), (6, 3), (3, 6), (1, 4), (8, 8)] if q else \
        list(itertools.product((0, 1, 2, 3, 5, 8, 12), repeat=2))
    for npml in pairs:
        for pol in ('Ez', 'Hz'):
            for pos in ((3, 4), (10, 5)):
                if max(npml) > 0:
                    out.append(dict(kind='point', npml=npml, pol=pol, pos=pos))
                    if npml[0] != npml[1]:      # a square domain
                        N = max(15 + 2*npml[0], 12 + 2*npml[1])
                        out.append(dict(kind='point', npml=npml, pol=pol, pos=pos, inner=(N - 2*npml[0], N - 2*npml[1])))
    return out


def reflections(Z, t, n, N, p, kx, dl):
    a = (Z*np.conj(t)).mean(1)
    i = np.arange(N)
    M = np.stack([np.exp(-1j*kx*dl*i), np.exp(1j*kx*dl*i)], 1)
    out = []
    worst = 0
    for lo, hi in ((n, p + 1), (p, N - n)):
        c = np.linalg.lstsq(M[lo:hi], a[lo:hi], rcond=None)[0]
        out.append(abs(c[0]/c[1]) if lo == n else abs(c[1]/c[0]))
        worst = max(worst, np.max(np.abs(M[lo:hi] @ c - a[lo:hi]))/np.max(np.abs(a)))
    return out, worst


def run(case, ctx):
    pol = case['pol']
    if case['kind'] == 'plane':
        n, axis = case['n'], case['axis']
        dl, om, L0 = case['res']
        lo, hi = case['off']
        N, p = 2*n + lo + hi + 1, n + lo
        lam = 2*np.pi/(om*np.sqrt(case['eb']*EPS0*MU0)*L0)/dl
        W = max(1, int(round(case['order']*lam/0.7)))*(1 if case['order'] else 1)
        W = W if case['order'] else 2
        sh = (N, W)
        npml = (n, 0)
        eps = np.full(sh, float(case['eb']))
        t = np.exp(2j*np.pi*(1 if case['order'] else 0)*np.arange(W)/W)
        src = np.zeros(sh, complex)
        src[p] = t
        k = om*np.sqrt(case['eb']*EPS0*MU0)*L0
        q2 = k**2 - (2/dl*np.sin(np.pi*(1 if case['order'] else 0)/W))**2
        kx = 2/dl*np.arcsin(np.sqrt(q2)*dl/2)
        s = sim_of(om, eps if axis == 0 else eps.T, dl, npml if axis == 0 else npml[::-1], pol, L0)
        s.src = src if axis == 0 else src.T
        Z = np.array(s.solve_fields()[2])
        ctx.op('solve', 2)
        if axis == 1:
            Z = Z.T
        R, worst = reflections(Z, t, n, N, p, kx, dl)
        m = ref.Model(om, np.full((N, 1), float(case['eb'])), dl, (n, 0), pol, L0)
        # the reference: same wave in a 1D model with the transverse wavenumber folded into the permittivity
        Zr = m1d(om, dl, n, N, p, case['eb'], (2/dl*np.sin(np.pi*(1 if case['order'] else 0)/W))**2, pol, L0)
        Rr, _ = reflections(Zr[:, None], np.ones(1), n, N, p, kx, dl)
        ctx.state('plane', n, pol, axis, tuple(case['res']), case['eb'], case['order'], p)
        ctx.check(worst < 1e-7, lambda: 'not a plane wave outside of the %d PML cells: misfit %.3g' % (n, worst))
        for end, r, rr in zip(('low', 'high'), R, Rr):
            ctx.check(r <= 1.5*rr + 1e-8, lambda: 'the PML at the %s end of axis %d reflects %.3g of the amplitude '
                      '(reference PML: %.3g)' % (end, axis, r, rr))
    else:
        npml = tuple(case['npml'])
        big = (15, 15)
        inner = tuple(case.get('inner', (15, 12)))
        sh = tuple(i + 2*n for i, n in zip(inner, npml))
        pos = case['pos']
        eps = np.ones(sh)
        src = np.zeros(sh, complex)
        src[npml[0] + pos[0], npml[1] + pos[1]] = 1
        s = sim_of(OM, eps, 0.1, npml, pol)
        s.src = src
        Z = np.array(s.solve_fields()[2])
        ctx.op('solve', 2)
        # a much larger domain
        pad = [0 if n == 0 else 8 for n in npml]
        bn = tuple(0 if n == 0 else b for n, b in zip(npml, big))
        bsh = tuple(i + 2*p + 2*n for i, p, n in zip(inner, pad, bn))
        bsrc = np.zeros(bsh, complex)
        o = [p + n for p, n in zip(pad, bn)]
        bsrc[o[0] + pos[0], o[1] + pos[1]] = 1
        B = ref.Model(OM, np.ones(bsh), 0.1, bn, pol).solve_sparse(bsrc)[2]
        B = B[o[0]:o[0] + inner[0], o[1]:o[1] + inner[1]]
        A = ref.Model(OM, eps, 0.1, npml, pol).solve_sparse(src)[2]
        cut = (slice(npml[0], npml[0] + inner[0]), slice(npml[1], npml[1] + inner[1]))
        e_impl, e_ref = rel(Z[cut], B), rel(A[cut], B)
        ctx.state('point', npml, pol, tuple(pos), inner)
        ctx.check(e_impl <= 1.5*e_ref + 1e-8, lambda: 'the domain is not open: the field differs by %.3g from a much '
                  'larger domain (reference PML: %.3g)' % (e_impl, e_ref))
    ctx.trace_ok()


def m1d(om, dl, n, N, p, eb, q2, pol, L0):
    sc = ref.sfactor(N, n, dl, om, L0, 'cell')
    se = ref.sfactor(N, n, dl, om, L0, 'edge')
    D = (np.eye(N) - np.roll(np.eye(N), 1, 0))/dl         # backward: f_i - f_{i-1}
    A = np.diag(1/sc) @ (-D.T) @ np.diag(1/se) @ D + (om**2*eb*EPS0*MU0*L0**2 - q2)*np.eye(N)
    b = np.zeros(N, complex)
    b[p] = 1
    return np.linalg.solve(A, b)
