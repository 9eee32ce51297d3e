"""C08 the Kerr permittivity, its derivatives and the index shift follow the Kerr law"""
import itertools

import numpy as np

from mc import ref
from mc.util import *

RULE = ('every ordered list of up to 3 Kerr regions from an alphabet of 8 (with and without material scaling) x grid x material x '
        'length unit; regions are added one by one, after each addition the law and its derivatives are compared for every field '
        'of an alphabet, then the permittivity is changed and everything is compared again; index shifts of histories of '
        'source, structure and nonlinearity changes are compared with the reference solution')
BOUND = {'quick': '14 domains, 13 materials, 7 units, 7 sources in turn; lists of length <= 2 (all) and 3 (subset without repetition)', 'thorough': 'all lists of length <= 3, more materials'}
ASSUMPTIONS = []

DOMS = [((6, 6), (2, 2)), ((8, 6), (1, 2)), ((1, 9), (0, 2)), ((9, 7), (3, 0)), ((11, 10), (0, 3)), ((9, 1), (2, 0)), ((10, 8), (2, 1)), ((5, 5), (0, 0)), ((1, 6), (0, 0)), ((7, 12), (1, 1)), ((6, 8), (0, 1))]
MATS = ['high', 'neg', 'slaby', 'metal', 'check', 'vac', 'low', 'gain', 'real', 'check']
SRCS = [('mid', 1e3), ('gen', 1e-4), ('real', 1), ('gen', 1e2), ('line', 1), ('imag', 1e-3), ('spread', 10)]
REGS = ['full', 'block', 'grade', 'bool', 'empty', 'sblock', 'sgrade', 'sneg', 'int', 'cplx', 'scplx']


def region(name, shape):
    """(chi, region, eps_max)"""
    r = np.zeros(shape)
    r[shape[0]//4:2*shape[0]//3 + 1, shape[1]//3:2*shape[1]//3 + 1] = 1
    return {'full': (1e-19, np.ones(shape), None), 'block': (3e-19, r, None), 'grade': (2e-20, gen(shape, 3), None),
            'bool': (5e-19, r.astype(bool), None), 'empty': (7e-19, np.zeros(shape), None),
            'sblock': (4e-19, r, 6.0), 'sgrade': (2e-19, gen(shape, 5), 12.0), 'sneg': (-1e-19, 1 - r, 2.5),
            'cplx': (2e-19 - 1e-19j, gen(shape, 8), None), 'scplx': (-3e-19j, r, 4.5 - 0.5j),
            'int': (6e-19, (1 - r).astype(int), None)}[name]


def cases(tier):
    q = tier == 'quick'
    lists = [()] + [(a,) for a in REGS] + list(itertools.product(REGS, repeat=2))
    lists += list(itertools.permutations(['block', 'sgrade', 'bool', 'sblock'], 3)) if q else list(itertools.product(REGS, repeat=3))
    lists += list(itertools.permutations(['full', 'scplx', 'bool', 'sneg'])) + [('full', 'grade', 'sblock', 'cplx', 'sgrade', 'block')]
    out = []
    for l in lists:
        for shape, k in ((((5, 6), 'gen'), ((8, 5), 'lossy'), ((7, 1), 'slabx')) if q else
                         (((5, 6), 'gen'), ((8, 5), 'lossy'), ((7, 1), 'slabx'), ((4, 4), 'int'), ((6, 7), 'metal'))):
            out.append(dict(kind='law', regs=l, shape=shape, eps=k))
        for j in range(1 if q else 4):       # other domains, materials, frequencies, units and sources in turn
            n = len(out)
            shape, npml = DOMS[n % len(DOMS)]
            out.append(dict(kind='law', regs=l, shape=shape, eps=MATS[n % len(MATS)], npml=npml, phys=n//2 % 7, src=SRCS[n % len(SRCS)]))
    ops = ['src', 'weak', 'eps', 'add', 'scaled', 'clear', 'lin', 'nl', 'shift']
    for k, depth in (('gen', 2 if q else 3), ('lossy', 2 if q else 3), ('metal', 2)):
        for seq in itertools.product(ops, repeat=depth):
            out.append(dict(kind='shift', ops=seq, eps=k))
            if not q or len(set(seq)) == 2:
                out.append(dict(kind='shift', ops=seq, eps=k, sign=-1))
                out.append(dict(kind='shift', ops=seq, eps=k, sign=[1, -0.7], phys=[1, 2, 3, 5][len(out) % 4]))
    return out


def run(case, ctx):
    (run_law if case['kind'] == 'law' else run_shift)(case, ctx)


def run_law(case, ctx):
    shape = tuple(case['shape'])
    eps = eps_of(case['eps'] if case['eps'] != 'real' else 'gen', shape)
    eps2 = eps_of('T', shape)
    om, dl, unit = PHYS[case.get('phys', 0)]
    npml, (sk, amp0) = tuple(case.get('npml', (0, 0))), case.get('src', ('gen', 1))
    for L0 in (1e-6, 1e-3) if 'phys' not in case else (unit,):
        sim = sim_of(om, eps.copy(), dl, npml, 'Ez', L0)
        used = []
        every = list(fields(shape, L0))

        def compare(e, where):
            k = ref.Kerr(used, L0)
            every.reverse()     # the field used last comes first: the same array, in another state of the simulation
            for name, E in every:
                keep = E.copy()
                sim.compute_nl(E)
                ctx.op('compute_nl')
                ctx.state(shape, case['eps'], tuple(case['regs'][:len(used)]), name, L0, where)
                c = k.coef(e)
                for got, want, what in ((sim.eps_nl, c*np.abs(keep)**2, 'Kerr permittivity'),
                                        (sim.dnl_de, c*np.conj(keep), 'derivative with respect to the field'),
                                        (sim.dnl_deps, k.dcoef(e)*np.abs(keep)**2, 'derivative with respect to the permittivity')):
                    s = np.max(np.abs(want))
                    err = np.max(np.abs(np.asarray(got) - want))
                    ctx.check(np.shape(got) == shape and err <= 1e-9*s, lambda: '%s is wrong (relative error %.3g) for the regions %s, '
                              'field %s, L0=%g, %s: %s' % (what, err/s if s else err, case['regs'][:len(used)], name, L0, where, case))
                ctx.check(np.array_equal(E, keep), 'compute_nl modified the field')
            if (L0 == 1e-6 or 'phys' in case) and where != 'none':
                frozen(e, k, where)

        def frozen(e, k, where):
            """linear fields of the permittivity with the Kerr permittivity of a given field"""
            for amp in (0.03, 2e3):
                E = amp*1e3*L0/1e-6*(gen(shape, 4) - 0.5 + 1j*(gen(shape, 5) - 0.5))
                src = src_of(sk, shape)*amp0
                sim.src = src.copy()
                lin = [f.copy() for f in sim.solve_fields()]
                sim.compute_nl(E)
                got = sim.solve_fields(include_nl=True)
                ctx.op('solve with frozen Kerr permittivity')
                m = ref.Model(om, e, dl, npml, 'Ez', L0)
                tot = e + k.coef(e)*np.abs(E)**2
                if np.linalg.cond(m.matrix(tot)) > 1e7:
                    continue
                want = m.solve(src, tot)
                sH = max(np.max(np.abs(want[0])), np.max(np.abs(want[1])))      # one of both may vanish
                for nm, a, b, c in zip(NAMES['Ez'], got, want, lin):
                    err = np.max(np.abs(a - b))/(np.max(np.abs(b)) if nm == 'Ez' else sH)
                    ctx.check(err < 1e-7, lambda: '%s with the Kerr permittivity of a given field is wrong by %.3g for the regions %s, %s: %s' % (nm, err, case['regs'][:len(used)], where, case))
                    ctx.check(np.array_equal(sim.fields[nm], c), lambda: 'the stored linear %s was replaced by a field with Kerr permittivity: %s' % (nm, case))
        compare(eps, 'none')
        for r in case['regs']:
            chi, reg, emax = region(r, shape)
            keep = reg.copy()
            sim.add_nl(chi, reg, eps_scale=emax is not None, eps_max=emax)
            used.append((chi, keep, emax))
            ctx.op('add %s' % r)
            compare(eps, 'added')
            ctx.check(np.array_equal(reg, keep), 'the region was modified')
        sim.eps_r = eps2.copy()
        compare(eps2, 'another permittivity')
        sim.nonlinearity = []
        used.clear()
        compare(eps2, 'removed')
    ctx.trace_ok()


def fields(shape, L0):
    u = L0/1e-6
    yield 'generic', u*1e3*(gen(shape, 1) - 0.5 + 1j*(gen(shape, 2) - 0.5))
    yield 'zero', np.zeros(shape, complex)
    e = np.zeros(shape, complex)
    e[-1, 0] = 2e5j*u
    yield 'one cell', e
    yield 'real', u*1e-4*gen(shape, 6)


def run_shift(case, ctx):
    shape, npml = (9, 8), (2, 0)
    eps = eps_of(case['eps'], shape)
    if case['eps'] == 'gen':
        eps = eps - 0.1j
    om, dl, L0 = PHYS[case.get('phys', 0)]
    sim = sim_of(om, eps.copy(), dl, npml, 'Ez', L0)
    src = src_of('mid', shape)*30
    sim.src = src.copy()
    regs = [region('block', shape)]
    E = ref.Model(om, eps, dl, npml, 'Ez', L0).solve_sparse(src)[2]
    sc = (complex(*case['sign']) if isinstance(case.get('sign'), (list, tuple)) else case.get('sign', 1))*0.02*L0**2/3/np.max(np.abs(E))**2/regs[0][0]      # scale of chi: shifts of a few percent
    regs = [(regs[0][0]*sc, regs[0][1], None)]
    sim.add_nl(*regs[0][:2])
    chi0 = regs[0][0]*0.2
    n = 0

    def observe():
        m = ref.Model(om, eps, dl, npml, 'Ez', L0)
        E, ok, _ = ref.newton(m, ref.Kerr(regs, L0), src)
        want = np.abs(ref.index(eps + ref.Kerr(regs, L0).eps_nl(E, eps)) - ref.index(eps))
        got = sim.compute_index_shift()
        ctx.op('index shift')
        err = np.max(np.abs(got - want))
        ctx.check(ok and np.shape(got) == shape and err <= 1e-6*np.max(want) + 1e-14,
                  lambda: 'index shift is wrong by %.3g of its maximum after %s: %s' % (err/max(np.max(want), 1e-300), case['ops'][:n], case))
        ctx.state(case['eps'], tuple(case['ops'][:n]))
        ctx.trace_ok()
    for op in case['ops'] + ['end']:
        if op == 'src':
            src = src*0.5 + src_of('gen', shape)
            sim.src = src.copy()
        elif op == 'weak':
            src = src*1e-3
            sim.src = src.copy()
        elif op == 'eps':
            eps = eps + 0.7*gen(shape, 9)
            sim.eps_r = eps.copy()
        elif op == 'add':
            regs.append((0.4*regs[0][0] if regs else chi0, gen(shape, 8), None))
            sim.add_nl(*regs[-1][:2])
        elif op == 'scaled':
            regs.append((0.7*regs[0][0] if regs else chi0, region('sneg', shape)[1], 7.0))
            sim.add_nl(regs[-1][0], regs[-1][1], eps_scale=True, eps_max=7.0)
        elif op == 'clear':
            regs = []
            sim.nonlinearity = []
        elif op == 'lin':
            sim.solve_fields()
        elif op == 'nl':
            sim.solve_fields_nl(solver_nl='newton')
        elif op in ('shift', 'end'):
            observe()
        n += 1
        ctx.op(op)
