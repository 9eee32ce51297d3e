"""C02 the solution maps with the geometry: mirrors, transposition, periodic shifts, invariance"""
import itertools

import numpy as np

from mc.util import *

RULE = ('every grid shape x PML pair x polarization x material; in each, every symmetry operation of the alphabet '
        '(mirror x, mirror y, both, transpose, every periodic shift, invariant extension) is applied to the '
        'configuration and the two real solutions are compared')
BOUND = {'quick': 'grids up to 12x11 (some up to 40x33), NPML in {0..3}^2 (some up to 20), 6-9 materials, 3 sources; 6 scales',
         'thorough': 'grids up to 22x19, NPML in {0..4}^2, 10 materials, 5 sources'}
ASSUMPTIONS = ['shifts are only compared on the periodic axes (no PML)']
TOL = 1e-7


def cases(tier):
    out = []
    shapes = [(1, 6), (6, 1), (3, 4), (5, 5), (8, 7), (7, 9), (12, 11)]
    npmls = [(0, 0), (2, 2), (0, 2), (3, 0), (1, 3), (2, 1)]
    kinds = ['pt', 'slabx', 'gen', 'lossy', 'metal', 'T']
    if tier != 'quick':
        shapes += [(2, 2), (2, 5), (10, 4), (15, 16), (22, 19)]
        npmls = list(itertools.product(range(5), repeat=2))
        kinds += ['slaby', 'check', 'F', 'view']
    for shape in shapes:
        for npml in npmls:
            if not npml_ok(shape, npml):
                continue
            for pol in ('Ez', 'Hz'):
                for k in kinds:
                    out.append(dict(shape=shape, npml=npml, pol=pol, eps=k))
    for ph, (shape, npml), pol, k in itertools.product(range(1, 6), [((9, 8), (2, 2)), ((7, 10), (0, 2))], ('Ez', 'Hz'), ['gen', 'lossy', 'gain', 'high', 'int', 'f32']):
        out.append(dict(shape=shape, npml=npml, pol=pol, eps=k, phys=ph))
    for (shape, npml), pol, k in itertools.product([((40, 33), (10, 8)), ((31, 46), (0, 12)), ((3, 70), (0, 20)), ((64, 5), (15, 0))], ('Ez', 'Hz'), ['gen', 'lossy', 'high']):
        out.append(dict(shape=shape, npml=npml, pol=pol, eps=k, phys=0))
    return out


def solve(ctx, pol, eps, npml, src, phys=0):
    om, dl, L0 = PHYS[phys]
    s = sim_of(om, eps, dl, npml, pol, L0)
    s.src = src
    out = [np.array(f) for f in s.solve_fields()]
    ctx.op('solve', 2)
    return out


def mirror_z(f, ax):
    return np.flip(f, ax)


def mirror_edge(f, ax):
    """a component on the edges i-1/2 maps to the edge N-i"""
    return np.roll(np.flip(f, ax), 1, ax)


def run(case, ctx):
    shape, npml, pol = tuple(case['shape']), tuple(case['npml']), case['pol']
    # lossless periodic boxes can sit on a resonance: a little loss keeps the comparison well conditioned
    eps = eps_of(case['eps'], shape)
    if npml[0] == 0 or npml[1] == 0 or 'phys' in case:
        eps = eps - (0.05j if case['eps'] == 'gain' else 0.15j)
    ph = case.get('phys', 0)
    f = 100 if case['eps'] == 'f32' else 1
    kinds = ['mid', 'gen', 'cell1'] if ctx.tier == 'quick' else ['mid', 'gen', 'cell1', 'line', 'cell%d' % (eps.size - 1)]
    for sk in kinds:
        if eps.size < 2:
            continue
        src = src_of(sk, shape)
        X, Y, Z = solve(ctx, pol, eps, npml, src, ph)
        ctx.state(shape, npml, pol, case['eps'], sk, 'id')
        sz = np.max(np.abs(Z))
        sc = max(np.max(np.abs(X)), np.max(np.abs(Y)), sz*1e-3*(1/377 if pol == 'Ez' else 377))

        def same(name, got, want):
            ctx.state(shape, npml, pol, case['eps'], sk, name)
            for nm, g, w in zip('xyz', got, want):
                ref_s = np.max(np.abs(Z)) if nm == 'z' else sc
                err = np.max(np.abs(g - w))/ref_s if ref_s > 0 else np.max(np.abs(g - w))
                ctx.check(err < TOL*f, lambda: '%s: the %s component differs by %.3g (src %s, %s)'
                          % (name, nm, err, sk, case))

        # mirror in x: z even; the component along y sits on x edges and is odd, the other is even
        for axes in ((0,), (1,), (0, 1)):
            e2, s2 = eps, src
            for a in axes:
                e2, s2 = np.flip(e2, a), np.flip(s2, a)
            got = solve(ctx, pol, e2, npml, s2, ph)
            wx, wy, wz = X, Y, Z
            for a in axes:
                wz = mirror_z(wz, a)
                if a == 0:
                    wx, wy = mirror_z(wx, 0), -mirror_edge(wy, 0)
                else:
                    wx, wy = -mirror_edge(wx, 1), mirror_z(wy, 1)
            same('mirror%s' % (axes,), got, (wx, wy, wz))
        # swap x and y
        got = solve(ctx, pol, eps.T, npml[::-1], src.T, ph)
        same('transpose', got, (-Y.T, -X.T, Z.T))
        # shifts along periodic axes
        for a in (0, 1):
            if npml[a] == 0 and shape[a] > 1:
                for k in range(1, shape[a]) if shape[a] < 20 else (1, 2, shape[a]//2, shape[a] - 1):
                    got = solve(ctx, pol, np.roll(eps, k, a), npml, np.roll(src, k, a), ph)
                    same('shift%d/%d' % (a, k), got, [np.roll(f, k, a) for f in (X, Y, Z)])
        # a configuration that does not change along a periodic axis = the one-dimensional one
        for a in (0, 1):
            if npml[a] == 0 and shape[a] > 1:
                pick = (slice(0, 1), slice(None)) if a == 0 else (slice(None), slice(0, 1))
                e1, s1 = eps[pick], src[pick]
                rep = (shape[a], 1) if a == 0 else (1, shape[a])
                if not np.any(s1):
                    s1 = s1.copy()
                    s1.ravel()[s1.size//2] = 1
                small = solve(ctx, pol, e1, npml, s1, ph)
                big = solve(ctx, pol, np.tile(e1, rep), npml, np.tile(s1, rep), ph)
                want = [np.tile(f, rep) for f in small]
                sz = np.max(np.abs(want[2]))
                st = max(np.max(np.abs(want[0])), np.max(np.abs(want[1])), sz/377*1e-3 if pol == 'Ez' else sz*377*1e-3)
                for nm, g, w in zip('xyz', big, want):
                    err = np.max(np.abs(g - w))/(sz if nm == 'z' else st)
                    ctx.check(err < TOL*f, lambda: 'invariance along axis %d: the %s component differs by %.3g (%s)'
                              % (a, nm, err, case))
        ctx.trace_ok()
