"""C17 objective and gradient always describe the current structure"""
import copy
import itertools

import numpy as np

from mc import ref, grads
from mc.util import *
from mc.checks.c12 import design

OPS = ['J', 'dJ', 'rho', 'tiny', 'back', 'src', 'srcin', 'solve', 'rough', 'check', 'gd', 'lbfgs', 'scan', 'omega', 'other', 'swap', 'chi', 'same', 'peek', 'opt2', 'perm']
RULE = ('every sequence of operations (evaluate, new density, tiny change, new background, new or scaled source, hand-made linear and unconverged nonlinear solves, derivative '
        'check, GD and L-BFGS step, frequency scan, new frequency, evaluation of another simulation, by another optimization, of another source that is put back, a permuted density, new objective function, added nonlinearity, re-assignment) up to the depth on one '
        'optimization; at its end objective and gradient (in both orders) against the reference problem in the tracked state')
BOUND = {'quick': 'depth 2 over 21 operations x 3 problems x 2 orders; depth 3 over 7 operations', 'thorough': 'depth 3 over 21 operations, depth 4 over 8 operations'}
ASSUMPTIONS = []
CORE = ['J', 'dJ', 'rho', 'tiny', 'src', 'rough', 'gd', 'check', 'other']
SHAPE, NPML, EM, R, ETA, BETA = (13, 8), (2, 0), 5.0, 2, 0.45, 3.0
PROBLEMS = {'lin': ('Ez', [('Ez', False)], 'int'), 'kerr': ('Ez', [('Ez', True), ('Hx', False)], 'sum'), 'Hz': ('Hz', [('Ex', False), ('Hz', False)], 'prod'),
            'nl': ('Ez', [('Hy', True)], 'quart')}


def cases(tier):
    q = tier == 'quick'
    out = []
    for d in range(0, 3 if q else 4):
        for p in ('lin', 'kerr', 'Hz') if q else PROBLEMS:
            for s in itertools.product(OPS, repeat=d):
                out.append(dict(problem=p, ops=s, first='J' if len(out) % 2 else 'dJ', phys=[0, 0, 2, 0, 3, 0, 5][len(out) % 7]))
    for p in ('lin', 'kerr', 'Hz') if q else PROBLEMS:
        for s in itertools.product((['J', 'rho', 'src', 'rough', 'gd', 'check', 'other'] if q else CORE[:8]), repeat=3 if q else 4):
            out.append(dict(problem=p, ops=s, first='J' if (len(out) + len(out)//9) % 2 else 'dJ', phys=[0, 0, 2, 0, 3, 0, 1][len(out) % 7]))
    return out


def run(case, ctx):
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    pol, args, form = PROBLEMS[case['problem']]
    OM, dl, L0 = PHYS[case.get('phys', 0)]
    des = design('block', SHAPE)
    inside = des.astype(bool)
    W = ref.filter_matrix(SHAPE[0], SHAPE[1], des, NPML, R)
    st = dict(om=OM, rho=np.where(inside, gen(SHAPE, 3), 0.2), src=src_of('mid', SHAPE)*30 + 0j, chi=[])
    st['eps'] = ref.rho_to_eps(st['rho'], des, EM, W, ETA, BETA)
    nl = any(n for _, n in args)
    m0 = ref.Model(OM, st['eps'], dl, NPML, pol, L0)
    f0 = m0.solve_sparse(st['src'])
    CHI = 0.02*L0**2/3/np.max(np.abs(f0[2]))**2
    P = []
    for i, (c, n) in enumerate(args):
        s = np.max(np.abs(f0[grads.IDX[pol][c]]))
        P.append((np.abs(gen(SHAPE, 9 + i)))*(np.add.outer((1 + i)*np.arange(SHAPE[0]), np.arange(SHAPE[1])) % 3 == 0)/s**(4 if form == 'quart' else 2))
    P2 = [2.5*p[::-1] for p in P]
    st['P'] = P
    sim = sim_of(OM, st['eps'].copy(), dl, NPML, pol, L0)
    sim.src = st['src'].copy()
    sim.rho = st['rho'].copy()

    def add(c):
        st['chi'].append((c, np.ones(SHAPE), EM))
        sim.add_nl(c, np.ones(SHAPE), eps_scale=True, eps_max=EM)
    if nl:
        add(CHI)
    o = Optimization(Objective(grads.make_J(form, len(args), P), [obj_arg('a%d' % i, component=c, nl=n) for i, (c, n) in enumerate(args)]),
                     sim, des, eps_m=EM, R=R, eta=ETA, beta=BETA)
    ctx.op('set up')

    def state():
        m = ref.Model(st['om'], st['eps'], dl, NPML, pol, L0)
        kerr = ref.Kerr(st['chi'], L0) if nl else None
        return grads.gradient(grads.Problem(m, st['src'], kerr), args, form, st['P'], st['rho'], des, EM, W, ETA, BETA)

    def setrho(r):
        st['rho'] = r
        st['eps'] = ref.rho_to_eps(r, des, EM, W, ETA, BETA)
        sim.rho = r.copy()
        sim.eps_r = st['eps'].copy()

    def read():
        ctx.check(np.all(np.isfinite(sim.rho)), 'the density is not finite')
        st['rho'], st['eps'] = np.array(sim.rho), np.array(sim.eps_r)

    def observe(what):
        g, J, F = state()
        if what == 'J':
            v = o.compute_J(sim)
            ctx.check(abs(v - J) <= 1e-7*abs(J) + 1e-9*sum(np.sum(np.abs(p)*np.abs(f)**2) for p, f in zip(st['P'], F)),
                      lambda: 'the objective is %.12g, that of the current structure is %.12g: %s' % (v, J, case))
        else:
            v = np.asarray(o.compute_dJ(sim, des))
            s = np.max(np.abs(g))
            e = np.max(np.abs(np.where(inside, v - g, 0)))
            ctx.check(e <= 1e-6*s, lambda: 'the gradient is off by %.3g of %.3g for the current structure: %s' % (e, s, case))
        ctx.op(what)

    for k, op in enumerate(case['ops']):
        if op == 'J':
            o.compute_J(sim)
        elif op == 'dJ':
            o.compute_dJ(sim, des)
        elif op == 'rho':
            setrho(np.where(inside, gen(SHAPE, 20 + k), 0.2))
        elif op == 'tiny':
            r = st['rho'].copy()
            r[SHAPE[0]//2 - 1, SHAPE[1]//2] += 1e-4
            setrho(r)
        elif op == 'back':
            st['eps'] = np.where(inside, st['eps'], 1.3 + k)
            sim.eps_r = st['eps'].copy()
        elif op == 'src':
            st['src'] = src_of('line', SHAPE)*(5 + k)
            sim.src = st['src'].copy()
        elif op == 'srcin':
            st['src'] = st['src']*1.01
            sim.src *= 1.01
        elif op == 'solve':
            sim.solve_fields()
        elif op == 'rough':
            sim.solve_fields()
            if pol == 'Ez':
                sim.solve_fields_nl(solver_nl=['newton', 'born'][k % 2], max_num_iter=1)
            else:
                sim.solve_fields_nl(solver_nl='born', max_num_iter=1)
        elif op == 'check':
            o.check_deriv(Npts=1, d_rho=1e-3)
            read()
        elif op == 'gd':
            g = state()[0]
            o.run(method='GD', Nsteps=1, step_size=0.1/np.max(np.abs(g)), verbose=False)
            read()
        elif op == 'lbfgs':
            o.run(method='LBFGS', Nsteps=1, verbose=False)
            read()
        elif op == 'scan':
            o.scan_frequency(Nf=2, df=0.02, pbar=False)
        elif op == 'omega':
            st['om'] = OM*(0.9 - 0.01*k)
            sim.omega = st['om']
            sim.eps_r = sim.eps_r
        elif op == 'other':
            s2 = sim_of(OM, 1 + gen(SHAPE, 30), dl, NPML, pol, L0)
            s2.src = src_of('line', SHAPE)
            s2.rho = gen(SHAPE, 31)
            o.compute_J(s2)
        elif op == 'swap':
            st['P'] = P2 if st['P'] is P else P
            o.objective.J = grads.make_J(form, len(args), st['P'])
        elif op == 'chi':
            add(CHI*0.7)
        elif op == 'same':
            sim.eps_r = sim.eps_r
        elif op == 'peek':
            keep = sim.src
            sim.src = src_of('line', SHAPE)*40
            sim.solve_fields()
            if nl:
                sim.solve_fields_nl()
            sim.src = keep
        elif op == 'opt2':
            keep = sim.src
            o2 = Optimization(Objective(grads.make_J('int', 1, [P2[0]]), [obj_arg('b', component=args[0][0], nl=args[0][1])]), sim, design('one', SHAPE), eps_m=3.0, beta=2.0)
            sim.src = src_of('line', SHAPE)*20
            (o2.compute_dJ if k % 2 else o2.compute_J)(*[sim, o2.design_region][:1 + k % 2])
            sim.src = keep
        elif op == 'perm':
            x = st['rho'][inside]
            r = st['rho'].copy()
            r[inside] = np.roll(x, 1 + k)
            setrho(r)
        ctx.op(op)
        ctx.state(case['problem'], *case['ops'][:k + 1])
    for what in (('J', 'dJ') if case['first'] == 'J' else ('dJ', 'J')):
        observe(what)
    ctx.check(np.array_equal(sim.eps_r, st['eps']) and np.array_equal(sim.src, st['src']) and np.array_equal(sim.rho, st['rho']),
              'evaluating the objective changed the simulation: %s' % case)
    ctx.trace_ok()
