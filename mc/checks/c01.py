"""C01 the solved fields satisfy the discrete Maxwell equations outside the PML"""
import itertools

import numpy as np

from mc import ref
from mc.util import *

RULE = ('every combination of polarization x grid shape x PML thickness pair x permittivity pattern; in each, '
        'every source of the alphabet (each single cell on small grids) is solved in sequence on one simulation')
BOUND = {'quick': 'grids up to 13x11 (some up to 101x60), NPML in {0..3}^2, 19 materials; 5 length units; all 2^6 two-material 3x2 grids x all 6 unit sources',
         'thorough': 'grids up to 24x20 (some up to 220x180); all 3^6 three-material 3x2 grids x all unit sources, all 2^9 3x3 grids'}
ASSUMPTIONS = ['IEEE double arithmetic of the sparse solver is accurate to 1e-9 of the largest term']

SHAPES_Q = [(1, 1), (1, 5), (5, 1), (2, 2), (2, 3), (3, 2), (5, 4), (4, 7), (8, 8), (9, 12), (13, 11)]
SHAPES_T = SHAPES_Q + [(1, 2), (2, 1), (16, 3), (3, 16), (15, 16), (24, 20), (21, 21)]
KINDS = ['vac', 'pt', 'slabx', 'slaby', 'check', 'gen', 'lossy', 'metal', 'neg', 'int', 'f32', 'F', 'view', 'T', 'weak', 'gain', 'high', 'low', 'c64']


def cases(tier):
    out = []
    shapes = SHAPES_Q if tier == 'quick' else SHAPES_T
    npmls = [(0, 0), (2, 2), (0, 3), (3, 0), (1, 2), (3, 1)]
    if tier != 'quick':
        npmls = list(itertools.product(range(5), range(5)))
    for shape in shapes:
        for npml in npmls:
            if not npml_ok(shape, npml):
                continue
            for pol in ('Ez', 'Hz'):
                for k in KINDS:
                    if pol == 'Hz' and k == 'neg':
                        continue        # averages of +1 and -7.3 stay away from 0, but resonances are extreme
                    out.append(dict(shape=shape, npml=npml, pol=pol, eps=k))
    # large grids
    for shape, npml in [((40, 33), (10, 8)), ((101, 60), (15, 10)), ((1, 300), (0, 20)), ((260, 1), (12, 0)), ((2, 257), (0, 0)), ((150, 3), (30, 0))] + ([] if tier == 'quick' else [((220, 180), (20, 20)), ((3, 900), (1, 50)), ((64, 64), (0, 0))]):
        for pol, k in itertools.product(('Ez', 'Hz'), ('gen', 'lossy', 'weak', 'pt')):
            out.append(dict(shape=shape, npml=npml, pol=pol, eps=k))
    # other wavelengths, spacings and length units
    for ph, (shape, npml), pol, k in itertools.product((2, 3, 4, 5), [((9, 12), (2, 3)), ((12, 8), (0, 2)), ((1, 14), (0, 3))], ('Ez', 'Hz'), KINDS):
        if k != 'neg':
            out.append(dict(shape=shape, npml=npml, pol=pol, eps=k, phys=ph))
    # very coarse grids, at frequencies where the diagonal of the operator (nearly) vanishes
    for shape, npml, pol, k, t in itertools.product([(9, 8), (12, 1), (11, 10)], [(0, 0), (2, 0), (2, 2)], ('Ez', 'Hz'), ('vac', 'gen', 'slabx', 'pt'), (1, 2, 4, 8)):
        if npml_ok(shape, npml):
            out.append(dict(shape=shape, npml=npml, pol=pol, eps=k, crit=t))
    # one dimensional arrays
    for n, k, pol in itertools.product((1, 2, 3, 7, 12), (0, 2), ('Ez', 'Hz')):
        if npml_ok((n, 1), (k, 0)):
            out.append(dict(shape=[n], npml=[k, 0], pol=pol, eps='gen'))
    # all materials on a tiny periodic grid
    vals = [1.0, 4.0] if tier == 'quick' else [1.0, 4.0, [2.5, -0.5]]
    for pol in ('Ez', 'Hz'):
        for combo in itertools.product(vals, repeat=6):
            out.append(dict(shape=[3, 2], npml=[0, 0], pol=pol, eps=list(combo)))
        if tier != 'quick':
            for combo in itertools.product([1.0, 4.0], repeat=9):
                out.append(dict(shape=[3, 3], npml=[0, 0], pol=pol, eps=list(combo)))
    return out


# options that do not change the result
OPT = {'real': dict(timing=True), 'F': dict(matrix_format='csc'), 'view': dict(matrix_format='coo', timing=True), 'line': dict(include_nl=False, averaging=True)}


def emask(N, n):
    m = np.ones(N, bool)
    if n > 0:
        m[:] = False
        m[n:N - n + 1] = True
    return m


def run(case, ctx):
    shape, npml, pol = tuple(case['shape']), tuple(case['npml']), case['pol']
    one_d = len(shape) == 1
    shape2 = shape if not one_d else (shape[0], 1)
    if isinstance(case['eps'], str):
        eps = eps_of(case['eps'], shape2)
    else:
        eps = np.array([complex(*v) if isinstance(v, (list, tuple)) else v for v in case['eps']]).reshape(shape2)
    params = ((OM, 0.1, 1e-6), (OM2, 0.07, 1e-6)) if not case.get('phys') else (PHYS[case['phys']],)
    if case.get('crit'):
        params = tuple((np.sqrt(case['crit']/em)*ref.C0/1e-7*(1 + d), 0.1, 1e-6) for d in (0, 1e-9, 1e-3) for em in sorted({1.0, float(np.max(np.abs(eps)))}))
    for omega, dl, L0 in params:
        sim = sim_of(omega, eps.ravel().copy() if one_d else eps, dl, npml, pol, L0)
        ctx.op('Simulation')
        m = ref.Model(omega, eps, dl, npml, pol, L0)
        if case.get('crit') and np.linalg.cond(sim.A.toarray()) > 1e8:
            continue        # a resonance
        n = int(np.prod(shape2))
        kinds = ['gen', 'real', 'int', 'F', 'view', 'tiny', 'huge', 'c64', 'imag', 'line', 'zero', 'tinyim', 'tinyre', 'spread']
        kinds += ['cell%d' % i for i in (range(n) if n <= 12 else (0, n//2 + 1, n - 1))]
        if case.get('crit'):
            kinds = ['gen', 'int', 'cell%d' % (n//2)]
        if n > 1000:
            kinds = ['gen', 'int', 'tiny', 'cell%d' % (n//2)]
        for sk in kinds:
            src = src_of(sk, shape2)
            sim.src = src
            keep = src.copy()
            out = sim.solve_fields(**OPT.get(sk, {}))
            ctx.op('solve %s' % sk)
            ctx.state(shape, npml, pol, case['eps'], sk, omega)
            check_fields(ctx, sim, m, keep, out, '%s src=%s omega=%.4g' % (case, sk, omega), 1e-5 if case['eps'] in ('f32', 'c64') else 1e-6 if sk == 'c64' else 1e-8)
            ctx.check(np.array_equal(np.asarray(sim.src), keep), 'solving changed the source')
        ctx.trace_ok()


def check_fields(ctx, sim, m, src, out, where, tol=1e-8):
    pol = m.pol
    ctx.check(len(out) == 3 and all(np.shape(o) == (m.Nx, m.Ny) for o in out), 'wrong shape of the fields: ' + where)
    X, Y, Z = [np.asarray(o).astype(complex) for o in out]
    for nm, o in zip(NAMES[pol], out):
        ctx.check(sim.fields[nm] is not None and np.array_equal(np.asarray(sim.fields[nm]), o),
                  lambda: 'stored field %s differs from the returned one: %s' % (nm, where))
    for nm in set(NAMES['Ez'] + NAMES['Hz']) - set(NAMES[pol]):
        ctx.check(sim.fields[nm] is None, lambda: 'component %s must not exist: %s' % (nm, where))
    ctx.check(all(np.all(np.isfinite(o)) for o in (X, Y, Z)), 'non-finite fields: ' + where)
    if not np.any(src):
        ctx.check(not (np.any(X) or np.any(Y) or np.any(Z)), 'fields without a source: ' + where)
        return
    w, dl = m.omega, m.dl
    mx = emask(m.Nx, m.npml[0])[:, None]
    my = emask(m.Ny, m.npml[1])[None, :]
    inside = m.interior()
    src = np.asarray(src).astype(complex)
    if pol == 'Ez':
        # Faraday: -dEz/dy = i w mu Hx on the y edges, dEz/dx = i w mu Hy on the x edges
        r1 = (1j*w*m.m0*X + db(Z, 1, dl))*my
        r2 = (1j*w*m.m0*Y - db(Z, 0, dl))*mx
        s = np.max(np.abs(Z))/dl
        # Ampere: dHy/dx - dHx/dy = i w eps Ez - ... + J (with angler's sign of J)
        r3 = (df(Y, 0, dl) - df(X, 1, dl) - 1j*w*m.e0*m.eps*Z - src)*inside
        s3 = max(np.max(np.abs(src)), cond_scale(m, Z)/w)
    else:
        ex, ey = m.e0*ref.edge_avg(m.eps, 0), m.e0*ref.edge_avg(m.eps, 1)
        r1 = (1j*w*ey*X - db(Z, 1, dl))*my
        r2 = (1j*w*ex*Y + db(Z, 0, dl))*mx
        s = np.max(np.abs(Z))/dl
        r3 = (df(Y, 0, dl) - df(X, 1, dl) + 1j*w*m.m0*Z + src)*inside
        s3 = max(np.max(np.abs(src)), cond_scale(m, Z)/w)
    for nm, r, sc in (('curl equation of the x component', r1, s), ('curl equation of the y component', r2, s),
                      ('curl equation of the z component', r3, s3)):
        err = np.max(np.abs(r))/sc
        ctx.check(err < tol, lambda: '%s violated: residual %.3g of the largest term, at cell %s; %s'
                  % (nm, err, np.unravel_index(np.argmax(np.abs(r)), r.shape), where))


db, df = ref.db, ref.df
