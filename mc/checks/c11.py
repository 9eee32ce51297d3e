"""C11 simulations do not share state or modify what the caller passed in"""
import copy
import itertools

import numpy as np

from mc.util import *

RULE = ('every interleaving of an operation sequence on simulation A with one on simulation B, both built from the same caller-owned '
        'arrays (or B a copy of A); after every operation all caller-owned arrays and all arrays returned before are compared with '
        'their recorded contents, at the end A and B are compared with runs of their own sequence alone')
BOUND = {'quick': 'pairs of 16 parameter sets; sequences of length (1,1) over 22 operations, (2,1) over 6, (solve, change, solve | solve) over 6 x 5 x 7', 'thorough': 'pairs of 16 parameter sets; (2,1) over 22 operations, (2,2) over 9, (solve, change, solve | change, solve)'}
ASSUMPTIONS = ['numpy\'s random generator is reseeded before each operation (it is shared by design)']

OPS = ['eps', 'src', 'nl', 'mode', 'modey', 'lin', 'newton', 'born', 'start', 'shift', 'full', 'halfway', 'random_sym', 'dJ', 'GD', 'ADAM', 'LBFGS', 'limit',
       'scan', 'check', 'plot', 'thick']
CORE = ['eps', 'src', 'nl', 'mode', 'lin', 'newton', 'halfway', 'dJ', 'GD']
QCORE = ['eps', 'src', 'nl', 'mode', 'halfway', 'GD']
SHAPE = (11, 12)


def cases(tier):
    q = tier == 'quick'
    out = []
    for pol in ('Ez', 'Hz'):
        def ok(*ops):
            return not (pol == 'Hz' and any(o in ('nl', 'newton', 'start', 'shift', 'born', 'limit') for o in ops))
        for rel_ in ('same', 'copy'):
            for a, b in itertools.product(OPS, repeat=2):
                if ok(a, b) and not ('plot' in (a, b) and (rel_ == 'copy' or (q and b != 'lin'))):
                    out.append(dict(pol=pol, rel=rel_, A=[a], B=[b]))
            # results of two solves of one simulation, with a change of it in between
            for a, c, b in itertools.product(['lin', 'newton', 'born', 'shift', 'dJ', 'scan'], ['src', 'double', 'eps', 'nl', 'mode'], ['lin', 'newton', 'born', 'start', 'shift', 'dJ', 'GD']):
                if ok(a, c, b) and rel_ == 'same':
                    out.append(dict(pol=pol, rel=rel_, A=[a, c, b], B=['lin'] if q else ['double', 'lin']))
            big = itertools.product(QCORE if q else OPS, repeat=3)
            for a1, a2, b in big:
                if ok(a1, a2, b) and rel_ == 'same' and not ('plot' in (a1, a2, b) and b != 'lin'):
                    out.append(dict(pol=pol, rel=rel_, A=[a1, a2], B=[b]))
            if not q:
                for a1, a2, b1, b2 in itertools.product(CORE, repeat=4):
                    if ok(a1, a2, b1, b2) and rel_ == 'same' and pol == 'Ez':
                        out.append(dict(pol=pol, rel=rel_, A=[a1, a2], B=[b1, b2]))
    # simulations that differ in one or two parameters
    for a, b in itertools.permutations(range(len(CONFIGS)), 2):
        out.append(dict(kind='params', A=a, B=b))
    return out


BASE = dict(dl=0.1, om=OM, L0=1e-6, npml=(2, 0), pol='Ez', eps='gen', R=2, des='block', chi=1.0, src='mid')
VARY = dict(dl=[0.07], om=[OM2], L0=[1e-3], npml=[(0, 2), (2, 1)], pol=['Hz'], eps=['lossy', 'slabx'], R=[3, None], des=['edge', 'bool'], chi=[0.5], src=['gen'])
CONFIGS = [BASE] + [dict(BASE, **{k: v}) for k in VARY for v in VARY[k]] + [dict(BASE, pol='Hz', dl=0.07), dict(BASE, L0=1e-3, dl=0.1e-3, om=OM)]


def run_params(case, ctx):
    """two simulations of the same shape with different parameters, used alternately, against the reference model"""
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    from angler.filter import rho2rhot
    from mc import ref
    from mc.checks.c12 import design
    shape = (13, 12)
    S = {}
    for n in 'AB':
        c = CONFIGS[case[n]]
        eps = eps_of(c['eps'], shape) - (0.1j if c['pol'] == 'Hz' else 0)
        sim = sim_of(c['om'], eps, c['dl'], c['npml'], c['pol'], c['L0'])
        sim.src = src_of(c['src'], shape)
        m = ref.Model(c['om'], eps, c['dl'], c['npml'], c['pol'], c['L0'])
        F = m.solve_sparse(sim.src)
        chi = c['chi']*0.01*c['L0']**2/np.max(np.abs(F[2]))**2
        if c['pol'] == 'Ez':
            sim.add_nl(chi, np.ones(shape))
        des = design(c['des'], shape)
        o = Optimization(Objective(lambda f: abs(f[0, 0]), [obj_arg('f', component=c['pol'])]), sim, des, eps_m=5.0, R=c['R'], beta=2.0)
        ctx.op('make', 2)
        W = np.eye(shape[0]*shape[1]) if c['R'] is None else ref.filter_matrix(*shape, des, c['npml'], c['R'])
        S[n] = (c, sim, m, F, ref.Kerr([(chi, np.ones(shape), None)], c['L0']), o, W)
    for n in 'ABAB':
        c, sim, m, F, kerr, o, W = S[n]
        G = sim.solve_fields()
        ctx.op('solve')
        for nm, a, b in zip(NAMES[c['pol']], G, F):
            ctx.check(rel(a, b) < 1e-7, lambda: '%s of %s is off by %.3g when simulations with other parameters were used before: %s, %s' % (nm, c, rel(a, b), CONFIGS[case['A']], CONFIGS[case['B']]))
        r = gen(shape, 3)
        ctx.check(rel(rho2rhot(r, o.W), (W @ r.ravel()).reshape(shape)) < 1e-6, lambda: 'the filter of %s is not its own' % c)
        if c['pol'] == 'Ez':
            E, ok, _ = ref.newton(m, kerr, sim.src)
            g = sim.solve_fields_nl(solver_nl='newton')[2]
            ctx.op('newton')
            ctx.check(ok and rel(g, E) < 1e-6, lambda: 'nonlinear field of %s is off by %.3g: %s' % (c, rel(g, E), case))
        ctx.state('params', case[n], n)
    ctx.trace_ok()


def interleavings(a, b):
    for pos in itertools.combinations(range(len(a) + len(b)), len(a)):
        yield ['A' if i in pos else 'B' for i in range(len(a) + len(b))]


def shared(pol):
    d = np.zeros(SHAPE)
    d[4:7, 4:8] = 1
    E = np.ones(SHAPE)
    E[:, 5:8] = 4.0
    return dict(eps=E, eps2=1 + 3*gen(SHAPE, 3), src=src_of('mid', SHAPE)*20, src2=src_of('gen', SHAPE), des=d,
                reg=gen(SHAPE, 5), npml=[2, 2], cx=[3, 6], cy=[6, 3], rho0=gen(SHAPE, 7), start=0.2*src_of('gen', SHAPE),
                P=gen(SHAPE, 9))


def freeze(sh):
    return {k: copy.deepcopy(v) for k, v in sh.items()}


def same(a, b):
    return np.array_equal(a, b) and (not hasattr(a, 'dtype') or (a.dtype == b.dtype and a.shape == b.shape))


def new_sim(sh, pol):
    from angler import Simulation
    s = Simulation(OM, sh['eps'], 0.1, sh['npml'], pol)
    s.src = sh['src']
    return s


def new_opt(sim, sh, pol):
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    o = Objective(lambda f: npa.sum(npa.square(npa.abs(f))*sh['P']), [obj_arg('f', component=pol)])
    return Optimization(o, sim, sh['des'], eps_m=4.0, R=2, beta=3.0)


def do(op, sim, sh, pol):
    """-> arrays returned to the caller"""
    np.random.seed(5)
    r = []
    if op == 'eps':
        sim.eps_r = sh['eps2']
    elif op == 'src':
        sim.src = sh['src2']
    elif op == 'thick':             # a thicker PML takes effect when the permittivity is assigned
        sim.NPML[0] = 3
        sim.eps_r = sim.eps_r
    elif op == 'double':
        sim.src = 2*sim.src
    elif op == 'nl':
        sim.add_nl(3e-19, sh['reg'])
    elif op == 'mode':
        sim.add_mode(1.7, 'x', sh['cx'], 6, scale=4)
        sim.setup_modes()
    elif op == 'modey':
        sim.add_mode(1.7, 'y', sh['cy'], 6, scale=4)
        sim.setup_modes()
    elif op == 'lin':
        r = list(sim.solve_fields())
    elif op in ('newton', 'born'):
        r = list(sim.solve_fields_nl(solver_nl=op))
    elif op == 'start':
        r = list(sim.solve_fields_nl(solver_nl='newton', Estart=sh['start']))
    elif op == 'shift':
        r = [sim.compute_index_shift()]
    elif op in ('full', 'halfway', 'random_sym'):
        sim.init_design_region(sh['des'], 4.0, style=op)
    elif op == 'dJ':
        r = [new_opt(sim, sh, pol).compute_dJ(sim, sh['des'])]
    elif op in ('GD', 'ADAM', 'LBFGS'):
        sim.rho = sh['rho0']
        new_opt(sim, sh, pol).run(method=op, Nsteps=1, step_size=1e-3)
    elif op == 'limit':
        sim.rho = sh['rho0']
        sim.add_nl(1e-21, sh['reg'])
        o = new_opt(sim, sh, pol)
        o.max_ind_shift = 1e-3
        o.run(method='GD', Nsteps=1, step_size=1e-3)
    elif op == 'scan':
        f, o, w = new_opt(sim, sh, pol).scan_frequency(Nf=3, df=0.02, pbar=False)
        r = [f, np.array(o)]
    elif op == 'check':
        sim.rho = sh['rho0']
        new_opt(sim, sh, pol).check_deriv(Npts=1, d_rho=1e-4)
    elif op == 'plot':
        import matplotlib.pyplot as plt
        sim.solve_fields()
        sim.plt_abs()
        sim.plt_re()
        sim.plt_eps()
        plt.close('all')
    return r


def final(sim, pol):
    # the stored state first, then results
    out = [np.array(sim.eps_r), np.array(sim.src), np.array(0 if sim.rho is None else sim.rho), np.array([len(sim.nonlinearity), len(sim.modes)])]
    out += [np.array(getattr(sim, 'W_in', 0))]
    for d in (sim.fields, sim.fields_nl):
        out += [np.zeros(1) if d[k] is None else np.array(d[k]) for k in sorted(d)]
    out += [np.array(f) for f in sim.solve_fields()]
    return out


_alone = {}


def alone(pol, ops):
    key = (pol, tuple(ops))
    if key not in _alone:
        sh = shared(pol)
        s = new_sim(sh, pol)
        for o in ops:
            do(o, s, sh, pol)
        _alone[key] = final(s, pol)
    return _alone[key]


def run(case, ctx):
    if case.get('kind') == 'params':
        return run_params(case, ctx)
    pol = case['pol']
    for order in interleavings(case['A'], case['B']):
        sh = shared(pol)
        rec = freeze(sh)
        S = dict(A=new_sim(sh, pol))
        S['B'] = new_sim(sh, pol) if case['rel'] == 'same' else copy.deepcopy(S['A'])
        todo = dict(A=list(case['A']), B=list(case['B']))
        returned = []
        hist = []
        for who in order:
            op = todo[who].pop(0)
            hist.append(who + '.' + op)
            got = do(op, S[who], sh, pol)
            ctx.op(op)
            where = 'after %s: %s' % (hist, case)
            for k in sh:
                ctx.check(same(sh[k], rec[k]), lambda: 'the caller\'s %s was modified %s' % (k, where))
            for n, arr, saved in returned:
                ctx.check(np.array_equal(arr, saved), lambda: 'an array returned by %s was overwritten %s' % (n, where))
            returned += [(hist[-1], np.asarray(a), np.array(a)) for a in got]
            ctx.state(pol, case['rel'], tuple(hist))
        where = 'after %s: %s' % (hist, case)
        for who in 'AB':
            for i, (a, b) in enumerate(zip(final(S[who], pol), alone(pol, case[who]))):
                s = np.max(np.abs(b)) if b.size else 0
                ctx.check(a.shape == b.shape and (not b.size or np.max(np.abs(a - b)) <= 1e-6*s),
                          lambda: 'simulation %s differs from what its own operations give (quantity %d) %s' % (who, i, where))
        for k in sh:
            ctx.check(same(sh[k], rec[k]), lambda: 'the caller\'s %s was modified %s' % (k, where))
        ctx.trace_ok()
