"""C23 initial design styles fill exactly the design region"""
import itertools

import numpy as np

from mc import ref
from mc.util import *
from mc.checks.c12 import design, REGIONS

RULE = ('every sequence of one or two styles x design region x background (real, lossy, integer, negative, single precision, strided) x material (also below 1, complex) x polarization; the random numbers are those of '
        'the seeded generator and, in turn, stubs that return all zeros, (nearly) all ones and a generic field; after each style every cell is examined, and the fields solved next')
BOUND = {'quick': '9 domains, 7 units and frequencies; sequences of 1-2 styles, 10 regions, 6 backgrounds, 7 materials (pairwise rotation)', 'thorough': 'all products'}
ASSUMPTIONS = ['after seeding, a run is one sample of the random styles; the stubs bound every outcome']
DOMS = [((8, 9), (0, 2)), ((9, 8), (0, 2)), ((7, 7), (2, 1)), ((8, 6), (2, 0)), ((12, 11), (1, 3)), ((10, 12), (0, 0)), ((9, 10), (2, 2)), ((1, 9), (0, 1)), ((11, 1), (3, 0))]
STYLES = ['full', 'empty', 'halfway', 'random', 'random_sym', '']
BACKS = ['gen', 'lossy', 'int', 'metal', 'f32', 'T']


def cases(tier):
    q = tier == 'quick'
    out = []
    n = 0
    seqs = [(a,) for a in STYLES] + list(itertools.product(STYLES, repeat=2))
    if not q:
        seqs += list(itertools.product(STYLES[:5], repeat=3))
    for s, r in itertools.product(seqs, [k for k in REGIONS if k != 'empty'] + ['empty']):
        for b in [BACKS[n % 6]] if q else BACKS:
            n += 1
            for m in range(7) if not q else [n % 7]:
                out.append(dict(seq=s, region=r, back=b, em=[6.0, 2.25, 0.5, [4.0, -0.3], 1.05, -3.5, 40.0][m], pol=['Ez', 'Hz'][n % 2], rnd=['seed', 'zero', 'one', 'gen'][(n + n//4) % 4],
                                shape=DOMS[n//2 % len(DOMS)][0], npml=DOMS[n//2 % len(DOMS)][1], phys=n//3 % 7, src=[('mid', 1), ('gen', 1e4), ('real', 1e-5)][n//5 % 3]))
    return out


def run(case, ctx):
    shape, pol = tuple(case['shape']), case['pol']
    des = design(case['region'], shape)
    inside = np.asarray(des).astype(bool)
    em = complex(*case['em']) if isinstance(case['em'], list) else case['em']
    eps = eps_of(case['back'], shape)
    keep, dkeep = eps.copy(), des.copy()
    om, dl, L0 = PHYS[case['phys']]
    sim = sim_of(om, eps, dl, case['npml'], pol, L0)
    sim.src = src_of(case['src'][0], shape)*case['src'][1]
    sim.solve_fields()
    real = np.random.random
    cur = keep.astype(complex)
    try:
        if case['rnd'] != 'seed':
            def stub(size=None):
                z = {'zero': np.zeros, 'one': lambda s: np.full(s, 1 - 2**-53), 'gen': lambda s: golden(int(np.prod(s)), 5).reshape(s)}[case['rnd']]
                return z(size) if size is not None else float(z((1,))[0])
            np.random.random = stub
        for k, style in enumerate(case['seq']):
            sim.init_design_region(des, em, style=style)
            ctx.op('init %s' % style)
            e = np.asarray(sim.eps_r)
            ctx.check(e.shape == shape, 'shape of the permittivity: %s' % case)
            ctx.check(np.array_equal(e[~inside], keep[~inside]), lambda: 'style %s changed the permittivity outside of the design region: %s' % (style, case))
            x = e[inside].astype(complex)
            if style in ('full', 'empty', 'halfway'):
                want = {'full': em, 'empty': 1, 'halfway': (em + 1)/2}[style]
                ctx.check(np.all(np.abs(x - want) <= (1e-6 if case['back'] == 'f32' else 1e-12)*abs(want)), lambda: 'style %s gives %s, not %s: %s' % (style, x[:3], want, case))
            elif style == '':
                ctx.check(np.max(np.abs(x - cur[inside]), initial=0) <= 1e-12, 'the style without a name changed the permittivity: %s' % case)
            else:
                t = (x - 1)/(em - 1)
                ctx.check(np.all(np.abs(t.imag) < 1e-7) and np.all(t.real >= -1e-7) and np.all(t.real <= 1 + 1e-7),
                          lambda: 'style %s: values outside of vacuum..material, e.g. %s: %s' % (style, x[np.argmax(np.abs(t - 0.5))], case))
                if style == 'random_sym':
                    both = inside & np.fliplr(inside)
                    ctx.check(np.max(np.abs(e - np.fliplr(e))[both], initial=0) <= 1e-12, 'not mirror-symmetric: %s' % case)
                if case['rnd'] in ('seed', 'gen') and x.size > 5:
                    ctx.check(len(np.unique(np.round(t.real, 9))) > x.size//3, 'style %s is not random: %s' % (style, case))
                    ctx.check(np.std(t.real) > 0.05, 'style %s hardly varies: %s' % (style, case))
            rho = np.asarray(sim.rho)
            ctx.check(rho.shape == shape and np.max(np.abs(rho - (e.astype(complex) - 1)/(em - 1))) <= 1e-6*max(1, np.max(np.abs(rho))) if case['back'] == 'f32' else
                      np.max(np.abs(rho - (e.astype(complex) - 1)/(em - 1))) <= 1e-9*np.max(np.abs(rho)) + 1e-12, lambda: 'the density is not that of the permittivity: %s' % case)
            ctx.check(np.array_equal(eps, keep) and eps.dtype == keep.dtype, 'the array of the caller was modified: %s' % case)
            ctx.check(np.array_equal(des, dkeep), 'the design region was modified: %s' % case)
            ctx.state(case['region'], case['back'], case['em'], pol, case['rnd'], *case['seq'][:k + 1])
            cur = e.astype(complex).copy()
    finally:
        np.random.random = real
    # fields belong to the new structure
    m = ref.Model(om, cur, dl, tuple(case['npml']), pol, L0)
    try:
        bad = np.min(np.abs(ref.edge_avg(cur, 0))) < 1e-3 or np.min(np.abs(ref.edge_avg(cur, 1))) < 1e-3
    except ValueError:
        bad = True
    if not bad:
        F = sim.solve_fields()
        W = m.solve_sparse(sim.src)
        A = m.matrix()
        if np.linalg.cond(A) < 1e6:
            ctx.check(all(rel(f, w) < 1e-6 or np.max(np.abs(w)) < 1e-12 for f, w in zip(F, W)) if case['back'] != 'f32' else True, 'fields of another structure: %s' % case)
    ctx.trace_ok()
