"""C24 structure generators build the described device"""
import itertools

import numpy as np

from mc.util import *

RULE = ('each generator x every combination of the values of its dimensions x unit of length (rotated); the returned arrays are measured (sizes, positions, widths and counts of all material runs in every cross section, symmetry, values) and compared with '
        'the requested dimensions')
BOUND = {'quick': '2 values of most dimensions', 'thorough': '2-3 values of every dimension, finer grids'}
ASSUMPTIONS = ['sizes and positions are compared up to the rounding to cells (two cells for sizes, and for centres, as the generators round towards zero)']
TOL, CTR = 2.01, 2.01
LENGTHS = ('L', 'H', 'L2', 'H2', 'w', 'd', 'l', 'spc', 'dl', 'gap', 'lambda0')


def combos(**kw):
    return [dict(zip(kw, v)) for v in itertools.product(*kw.values())]


def cases(tier):
    q = tier == 'quick'
    P = [[0, 0], [4, 7]] if q else [[0, 0], [4, 7], [15, 10]]
    dls = [0.1, 0.04] if q else [0.1, 0.04, 0.025]
    sz = dict(L=[1.0, 1.75] if q else [1.0, 1.75, 3.0], H=[1.5, 2.2] if q else [1.2, 1.5, 2.2], w=[0.3, 0.5], l=[0.6, 1.0], spc=[0.4, 1.0], dl=dls, NPML=P)
    out = []
    for c in combos(**sz, d=[0.9, 1.1] if not q else [0.9], mat=[(4.0, 1), (12.1, 2.25)]):
        out.append(dict(gen='three_port', par=c))
    for c in combos(**sz, mat=[(4.0, 1), (12, 1)]):
        out.append(dict(gen='two_port', par=c))
    for c in combos(N=[1, 2, 3, 4], **sz, d=[0.7, 0.9] if not q else [0.7], mat=[(4.0, 1)] if q else [(4.0, 1), (2, 3.5)]):
        out.append(dict(gen='N_port', par=c))
    for c in combos(L=[1.5, 2.0], L2=[1.0, 1.3], H=[1.5, 2.0], H2=[1.0, 1.2], w=[0.3, 0.5], l=[0.6, 1.0], dl=dls, NPML=P, mat=[(4.0, 1)] if q else [(4.0, 1), (12, 1)]):
        out.append(dict(gen='ortho_port', par=c))
    for c in combos(beta=[0.5, 1.0], gap=[0.4, 0.8], lambda0=[1.0, 2.0], L=[0.5, 1.2], spc=[0.3, 1.0], dl=dls, NPML=P, mat=[(4.0, 1), (2.1, 1)]):
        out.append(dict(gen='accelerator', par=c))
    for c in combos(beta=[0.5] if q else [0.5, 1.0], gap=[0.4, 0.8], lambda0=[1.0, 2.0], L=[0.5, 0.9], spc=[0.3, 1.0], num=[1, 2, 3, 4, 5] if q else [1, 2, 3, 4, 5, 7], dl=dls, NPML=P, mat=[(4.0, 1)]):
        out.append(dict(gen='accelerator_multi', par=c))
    for c in combos(beta=[0.5], gap=[0.3], lambda0=[2.0], L=[0.3, 0.5], spc=[0.3], num=[7, 9, 11], dl=[0.1], NPML=[[4, 0]], mat=[(4.0, 1)]):
        out.append(dict(gen='accelerator_multi', par=c))
    for c in combos(N=[5, 6, 8], L=[1.0], H=[6.2], w=[0.3], l=[0.6], spc=[0.4], d=[0.7], dl=[0.1], NPML=[[4, 7]], mat=[(4.0, 1)]):
        out.append(dict(gen='N_port', par=c))
    one = dict(L=[1.0], H=[1.5], w=[0.3], l=[0.6], spc=[0.4], dl=[0.1], NPML=[[4, 7]])
    lossy = [('4-0.1j', 1), ('-20-1.5j', 1), ('complex64 3-1j', 1), ('complex128 3-1j', 1), ('float32 2.5', 1), ('int64 3', 1), (0.5, 1)]
    both = lossy + [(4.0, '1.5-0.2j'), ('2-0.1j', '3-0.2j'), (3, '2.5-0.1j'), (1, 4.5)]
    for g, kw, mats in [('three_port', dict(one, d=[0.9]), both), ('two_port', one, lossy), ('N_port', dict(one, d=[0.5], N=[2, 3]), both),
                        ('ortho_port', dict(L=[1.5], L2=[1.0], H=[1.5], H2=[1.0], w=[0.3], l=[0.6], dl=[0.1], NPML=[[4, 7]]), lossy),
                        ('accelerator', dict(beta=[0.5], gap=[0.4], lambda0=[2.0], L=[0.5], spc=[0.3], dl=[0.1], NPML=[[4, 0]]), lossy),
                        ('accelerator_multi', dict(beta=[0.5], gap=[0.4], lambda0=[2.0], L=[0.5], spc=[0.3], num=[3], dl=[0.1], NPML=[[4, 0]]), lossy)]:
        for c in combos(**kw, mat=mats):
            out.append(dict(gen=g, par=c))
    for c in combos(shape=[(9, 8), (12, 1), (1, 7), (16, 15)], dl=[0.1, 0.03], regs=list(range(len(REGS))), mat=both + [(4.0, 1), (12, 2.25)]):
        out.append(dict(gen='regions', par=c))
    units = [1, 1e3, 1, 1e-3, 1, 2.0**-20, 1, 1e-6, 1, 25.4]     # units of length, relative to the usual one
    for i, c in enumerate(out):
        if c['gen'] != 'regions':
            c['unit'] = units[(i + i//len(units)) % len(units)]
    # cheap first; several devices per case
    out.sort(key=lambda c: (c['par']['dl'] < 0.1))
    return [dict(devices=out[i:i + 4]) for i in range(0, len(out), 4)]


def number(v):
    """'complex64 3-1j' -> np.complex64(3-1j)"""
    if not isinstance(v, str):
        return v
    w = v.split()
    x = complex(w[-1]) if 'j' in v else float(w[-1])
    return x if len(w) == 1 else getattr(np, w[0])(x)


REGS = [[lambda x, y: x < 0], [lambda x, y: np.abs(y) < 0.2, lambda x, y: (x > 0) * (np.abs(x) < 0.3)], lambda x, y: x**2 + y**2 < 0.04, [],
        [lambda x, y: True], [lambda x, y: False], [lambda x, y: x > 0.1, lambda x, y: x > 0, lambda x, y: y < -0.1]]


def regions(c, ctx):
    """a permittivity made from regions of the user"""
    from angler import structures
    em, bg = map(number, c['mat'])
    xs, ys = structures.get_grid(c['shape'], c['dl'])
    ctx.op('regions', 2)
    ctx.state('regions', *[str(v) for v in c.values()])
    for k, a in enumerate((np.asarray(xs), np.asarray(ys))):
        N = c['shape'][k]
        ctx.check(a.shape == tuple(c['shape']), 'shape of the coordinates: %s' % c)
        v = a[:, 0] if k == 0 else a[0]
        ctx.check(np.array_equal(a, np.broadcast_to(v[:, None] if k == 0 else v, a.shape)), 'the coordinates are not a grid: %s' % c)
        if N > 1:
            ctx.check(np.max(np.abs(v + v[::-1])) < 1e-9 and np.max(np.abs(np.diff(v) - c['dl'])) <= 1.01*c['dl']/(N - 1), 'the coordinates are not centred cells of size dl: %s' % c)
    reg = REGS[c['regs']]
    keep = list(reg) if isinstance(reg, list) else reg
    eps = np.asarray(structures.apply_regions(reg, xs, ys, em, bg) if bg != 1 or c['regs'] % 2 else structures.apply_regions(reg, xs, ys, eps_start=em))
    ctx.check(reg == keep, 'the list of regions was changed')
    inside = np.zeros(c['shape'], bool)
    for r in (reg if isinstance(reg, list) else [reg]):
        for i, j in np.ndindex(*c['shape']):
            inside[i, j] |= bool(r(xs[i, j], ys[i, j]))
    want = np.where(inside, em, bg)
    ctx.check(eps.shape == want.shape and np.max(np.abs(eps - want)) <= 1e-12*max(abs(em), abs(bg)), lambda: 'a permittivity of regions is wrong in %d cells (by up to %.3g): %s'
              % (np.sum(np.abs(eps - want) > 1e-12), np.max(np.abs(eps - want)), c))
    ctx.trace_ok()


def runs(mask):
    """list of (first, length) of the runs of True"""
    m = np.concatenate([[0], np.asarray(mask, int), [0]])
    d = np.diff(m)
    s, e = np.where(d == 1)[0], np.where(d == -1)[0]
    return list(zip(s.tolist(), (e - s).tolist()))


def run(case, ctx):
    for d in case['devices']:
        device(d, ctx)


def device(case, ctx):
    from angler import structures
    g, c = case['gen'], dict(case['par'])
    if g == 'regions':
        return regions(c, ctx)
    c = {k: v*case['unit'] if k in LENGTHS and case['unit'] != 1 else v for k, v in c.items()}
    dl, npml = c['dl'], list(c['NPML'])
    em, bg = map(number, c['mat'])
    ctx.op(g)
    ctx.state(g, *[str(v) for v in c.values()])

    def bad(what):
        return lambda: '%s: %s for %s' % (g, what, c)
    # the materials by position or by name
    tail = ([em, bg], {}) if c['dl'] < 0.05*case.get('unit', 1) else ([em], dict(eps_background=bg)) if bg != 1 or c['L'] > 1.2*case.get('unit', 1) else ([em], {})
    if g == 'three_port':
        eps, des = structures.three_port(c['L'], c['H'], c['w'], c['d'], c['l'], c['spc'], dl, npml, *tail[0], **tail[1])
    elif g == 'two_port':
        eps, des = structures.two_port(c['L'], c['H'], c['w'], c['l'], c['spc'], dl, npml, em)
    elif g == 'N_port':
        eps, des = structures.N_port(c['N'], c['L'], c['H'], c['w'], c['d'], c['l'], c['spc'], dl, npml, *tail[0], **tail[1])
    elif g == 'ortho_port':
        eps, des = structures.ortho_port(c['L'], c['L2'], c['H'], c['H2'], c['w'], c['l'], dl, npml, em)
    elif g == 'accelerator':
        eps, des = structures.accelerator(c['beta'], c['gap'], c['lambda0'], c['L'], c['spc'], dl, npml, em)
    else:
        a = (c['beta'], c['gap'], c['lambda0'], c['L'], c['spc'], c['num'], dl, npml, em)
        if c['num'] % 2 == 0:
            try:
                structures.accelerator_multi(*a)
            except ValueError:
                return ctx.trace_ok()
            ctx.fail('accelerator_multi accepts an even number of channels: %s' % c)
        eps, des = structures.accelerator_multi(*a)
    eps, des = np.asarray(eps), np.asarray(des)
    ctx.check(eps.ndim == 2 and eps.shape == des.shape, bad('shapes %s and %s' % (eps.shape, des.shape)))
    Nx, Ny = eps.shape
    ctx.check(npml == list(c['NPML']), bad('the PML list was changed'))
    ctx.check(set(np.unique(eps).tolist()) <= {complex(em), complex(bg)}, bad('values %s of the permittivity' % np.unique(eps)[:5]))
    ctx.check(set(np.unique(des)) <= {0.0, 1.0}, bad('values %s of the design region' % np.unique(des)[:5]))
    ctx.check(np.any(des == 1), bad('empty design region'))
    D = des == 1
    M = eps == em
    near = lambda a, b: abs(a - b) <= TOL

    def centre(first, length, N):
        """of a run, in units of length, relative to the middle of the domain"""
        return (first + length/2 - N/2)*dl
    if g.startswith('accel'):
        n = c.get('num', 1)
        want = 2*npml[0] + (4*c['spc'] + (2*c['L']*n if g != 'accelerator' else 2*c['L']) + c['gap']*n)/dl
        ctx.check(near(Nx, want), bad('length %d, not %.1f' % (Nx, want)))
        ctx.check(near(Ny, c['beta']*c['lambda0']/dl), bad('period %d, not %.1f' % (Ny, c['beta']*c['lambda0']/dl)))
        ctx.check(np.array_equal(M, D), bad('the material is not the design region'))
        ctx.check(np.all(M == M[:, :1]) and np.array_equal(M, M[::-1]), bad('not uniform along y or not symmetric'))
        r = runs(M[:, 0])
        ctx.check(len(r) == n + 1, bad('%d slabs' % len(r)))
        for k, (s, length) in enumerate(r):
            x = (k - n/2)*(c['gap'] + c['L'])
            # (the coordinates of the generators are stretched by N/(N-1))
            ctx.check(near(length, c['L']/dl) and abs(centre(s, length, Nx) - x) <= CTR*dl + abs(x)/Nx, bad('slab %d has length %d at %.3f, not %.1f at %.3f' % (k, length, centre(s, length, Nx), c['L']/dl, x)))
        ctx.check(r[0][0] >= npml[0] + 2*c['spc']/dl - TOL, bad('no room for source and PML'))
        return ctx.trace_ok()

    ctx.check(near(Nx, 2*npml[0] + (2*c['l'] + c['L'])/dl), bad('length %d' % Nx))
    ctx.check(near(Ny, 2*npml[1] + ((c['H'] + 2*c['spc']) if g != 'ortho_port' else (c['H'] + 2*c['l']))/dl), bad('height %d' % Ny))

    def box(m, lx, ly, what, cy=0.0):
        """m is a filled rectangle of this size, centred"""
        xr, yr = runs(m.any(1)), runs(m.any(0))
        ctx.check(len(xr) == 1 and len(yr) == 1 and m[xr[0][0]:xr[0][0] + xr[0][1], yr[0][0]:yr[0][0] + yr[0][1]].all(), bad('%s is not a rectangle' % what))
        ctx.check(near(xr[0][1], lx/dl) and near(yr[0][1], ly/dl), bad('%s has %d x %d cells, not %.1f x %.1f' % (what, xr[0][1], yr[0][1], lx/dl, ly/dl)))
        ctx.check(abs(centre(*xr[0], Nx)) <= CTR*dl and abs(centre(*yr[0], Ny) - cy) <= CTR*dl, bad('%s is not centred' % what))
        return xr[0][0], xr[0][0] + xr[0][1]

    def guides(x, centres, what):
        r = runs(M[x])
        ctx.check(len(r) == len(centres), bad('%d waveguides at the %s (x=%d), not %d' % (len(r), what, x, len(centres))))
        for (s, length), y in zip(r, centres):
            ctx.check(near(length, c['w']/dl) and abs(centre(s, length, Ny) - y) <= CTR*dl + abs(y)/Ny,
                      bad('%s waveguide of width %d at %.3f, not %.1f at %.3f' % (what, length, centre(s, length, Ny), c['w']/dl, y)))
    if g in ('three_port', 'N_port', 'two_port'):
        x0, x1 = box(D, c['L'], c['H'], 'the design region')
        n = dict(three_port=2, two_port=1, N_port=c.get('N'))[g]
        outs = [(k - (n - 1)/2)*c.get('d', 0) for k in range(n)]
        fits = max(outs) + c['w']/2 < (c['H']/2 if g != 'N_port' else c['H']/2 + c['spc'] + npml[1]*dl) - 2*dl and (n == 1 or c['d'] > c['w'] + 3*dl)
        for x in range(x0):
            guides(x, [0.0], 'input')
        if fits:
            for x in range(x1, Nx):
                guides(x, outs, 'output')
        if g == 'two_port':
            for x in range(x0, x1):
                guides(x, [0.0], 'device')
            ctx.check(np.array_equal(M, M[:, ::-1]) and np.array_equal(M, M[::-1]), bad('not symmetric'))
        else:
            ctx.check(M[D].all(), bad('the design region is not filled'))
        ctx.check(np.array_equal(D, D[:, ::-1]) and np.array_equal(D, D[::-1]), bad('the design region is not symmetric'))
        return ctx.trace_ok()
    # ortho_port: left, right and top (y > 0) waveguides
    for x in list(range(0, int(Nx/2 - c['w']/2/dl - 2))) + list(range(int(np.ceil(Nx/2 + c['w']/2/dl + 3)), Nx)):
        guides(x, [0.0], 'horizontal')
    for y in range(int(np.ceil(Ny/2 + c['w']/2/dl + 2)), Ny):
        r = runs(M[:, y])
        ctx.check(len(r) == 1 and near(r[0][1], c['w']/dl) and abs(centre(*r[0], Nx)) <= CTR*dl, bad('the vertical waveguide at y=%d: %s' % (y, r)))
    for y in range(0, int(Ny/2 - c['w']/2/dl - 2)):
        ctx.check(not M[:, y].any(), bad('material below the horizontal waveguide'))
    # design region: horizontal bar L x w, box L2 x H2, vertical bar w from -H2/2 to H/2
    def bar(m, N, length, what, lo=None, hi=None):
        r = runs(m)
        ctx.check(len(r) == 1, bad('%s of the design region in %d pieces' % (what, len(r))))
        lo, hi = (-length/2, length/2) if lo is None else (lo, hi)
        a, b = (r[0][0] - N/2)*dl, (r[0][0] + r[0][1] - N/2)*dl
        ctx.check(abs(a - lo) <= CTR*dl and abs(b - hi) <= CTR*dl + dl/2, bad('%s of the design region from %.3f to %.3f, not %.3f to %.3f' % (what, a, b, lo, hi)))
    bar(D[:, Ny//2], Nx, c['L'], 'the horizontal extent')
    bar(D[Nx//2, :], Ny, 0, 'the vertical extent', -c['H2']/2, c['H']/2)
    k = int(np.floor((c['w']/2 + c['H2']/2)/2/dl + 0.499999))
    if c['H2']/2 - c['w']/2 > 4*dl:
        bar(D[:, Ny//2 + k], Nx, c['L2'], 'the width of the box')
        bar(D[:, Ny//2 - k], Nx, c['L2'], 'the width of the box')
    k = int(np.floor((c['w']/2 + c['L2']/2)/2/dl + 0.499999))
    if c['L2']/2 - c['w']/2 > 4*dl:
        bar(D[Nx//2 + k + 1, :], Ny, c['H2'], 'the height of the box')
        bar(D[Nx//2 - k, :], Ny, c['H2'], 'the height of the box')
    k = int(np.floor((c['H2']/2 + c['H']/2)/2/dl + 0.499999))
    if c['H']/2 - c['H2']/2 > 4*dl:
        bar(D[:, Ny//2 + k], Nx, c['w'], 'the width of the upper arm')
    k = int(np.floor((c['L2']/2 + c['L']/2)/2/dl + 0.499999))
    if c['L']/2 - c['L2']/2 > 4*dl:
        bar(D[Nx//2 + k, :], Ny, c['w'], 'the width of the right arm')
        bar(D[Nx//2 - k, :], Ny, c['w'], 'the width of the left arm')
    ctx.trace_ok()
