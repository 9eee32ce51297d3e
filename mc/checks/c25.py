"""C25 objectives bind each argument to its field"""
import itertools

import numpy as np

from mc import ref, grads
from mc.util import *

RULE = ('every ordered list of up to three arguments over the six components x linear/nonlinear x polarization: the objective function must receive exactly those fields in that order (or the request be rejected), and its value be '
        'returned; every pair of argument count and function arity; every component name over an alphabet; replaced objective functions with their derivatives')
BOUND = {'quick': 'all 1884 lists up to length 3 per polarization on 3 of 11 domains in turn', 'thorough': 'the same on 11 domains, and all lists of length 4 that the polarization has'}
ASSUMPTIONS = []
COMPS = ['Ez', 'Hx', 'Hy', 'Hz', 'Ex', 'Ey']
ARGS = [(c, n) for c in COMPS for n in (False, True)]
SH = {0: ((5, 6), (0, 1)), 1: ((6, 4), (1, 0)), 2: ((7, 1), (2, 0)), 3: ((7, 6), (1, 2)), 4: ((6, 6), (0, 0)), 5: ((7, 7), (2, 2)), 6: ((9, 8), (3, 2)), 7: ((1, 8), (0, 2)), 8: ((6, 9), (2, 3)), 9: ((13, 10), (2, 2)), 10: ((8, 5), (2, 0))}
EPS = {0: 'l', 1: 'l', 2: 'l', 3: 'gen', 4: 'l', 5: 'high', 6: 'slabx', 7: 'l', 8: 'vac', 9: 'metal', 10: 'check'}
SRC = [('mid', 30), ('gen', 1e4), ('real', 1e-4), ('mid', 1), ('imag', 1), ('spread', 300)]


def cases(tier):
    q = tier == 'quick'
    out = []
    for pol in ('Ez', 'Hz'):
        for n in range(4):
            out.append(dict(kind='arity', pol=pol, n=n))
        for c in COMPS:
            for g in [len(out) % 11, (len(out) + 6) % 11] if q else range(11):
                out.append(dict(kind='swap', pol=pol, comp=c, grid=g, phys=len(out) % 7, src=len(out) % 6))
        for a in ARGS:
            for g in [0, len(out) % 11, (len(out) + 7) % 11] if q else range(11):
                out.append(dict(kind='lists', pol=pol, first=a, grid=g, depth=3, phys=len(out) % 7 if g else 0, src=len(out) % 6 if g else 0))
        if not q:
            for a, b in itertools.product([x for x in ARGS if x[0] in NAMES[pol]], repeat=2):
                out.append(dict(kind='lists', pol=pol, first=a, second=b, grid=0, depth=4))
    out.append(dict(kind='names'))
    return out


def setting(case):
    pol = case['pol']
    shape, npml = SH[case.get('grid', 0)]
    k = EPS[case.get('grid', 0)]
    eps = 1 + 3*gen(shape, 2) - 0.2j if k == 'l' else eps_of(k, shape)
    om, dl, L0 = PHYS[case.get('phys', 0)]
    sim = sim_of(om, eps, dl, npml, pol, L0)
    s = SRC[case.get('src', 0)]
    sim.src = src_of(s[0], shape)*s[1]
    m = ref.Model(om, eps, dl, npml, pol, L0)
    lin = m.solve_sparse(sim.src)
    F = {(c, False): f for c, f in zip(NAMES[pol], lin)}
    if pol == 'Ez':
        chi = 0.1*L0**2/3/np.max(np.abs(lin[2]))**2
        while not ref.born(m, ref.Kerr([(chi, np.ones(shape), None)], L0), sim.src, itmax=18, tol=1e-11)[1]:
            chi /= 2        # the iteration contracts
        sim.add_nl(chi, np.ones(shape))
        E, ok, _ = ref.newton(m, ref.Kerr([(chi, np.ones(shape), None)], L0), sim.src)
        assert ok
        nl = m.transverse(E) + (E,)
    else:
        nl = lin
    F.update({(c, True): f for c, f in zip(NAMES[pol], nl)})
    return sim, F, shape, m


def fn(n, got, value):
    def rec(*a):
        got.append(a)
        return value
    return {0: lambda: rec(), 1: lambda a: rec(a), 2: lambda a, b: rec(a, b), 3: lambda a, b, c: rec(a, b, c), 4: lambda a, b, c, d: rec(a, b, c, d)}[n]


def run(case, ctx):
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    if case['kind'] == 'names':
        for c in COMPS:
            a = obj_arg('x', component=c)
            ctx.op('obj_arg')
            ctx.check(a.component == c and not a.nl, 'component %s' % c)
        for c in ['ez', 'Dz', '', 'E', 'Hzz', 'Bx', 'xE', None, 1, 'EZ']:
            try:
                obj_arg('x', component=c)
            except Exception:
                pass
            else:
                ctx.fail('the unknown component %r is accepted' % (c,))
            ctx.op('obj_arg')
        ctx.state('names')
        ctx.trace_ok()
        return
    if case['kind'] == 'arity':      # (an objective without arguments is not an objective)
        comp = case['pol']
        for k in range(0 if case['n'] else 1, 4):
            args = [obj_arg('a%d' % i, component=comp) for i in range(k)]
            ctx.op('Objective')
            ctx.state('arity', case['n'], k)
            try:
                Objective(fn(case['n'], [], 1.0), args)
                ok = True
            except Exception:
                ok = False
            ctx.check(ok == (k == case['n']), 'a function of %d arguments and a list of %d are %s' % (case['n'], k, 'accepted' if ok else 'rejected'))
        if case['n'] == 1:
            o = Objective(fn(1, [], 1.0), obj_arg('a', component=comp))       # a single argument need not be in a list
            ctx.check(len(o.arg_list) == 1, 'single argument')
        ctx.trace_ok()
        return
    sim, F, shape, m = setting(case)
    pol = case['pol']
    if case['kind'] == 'swap':
        return swap(case, ctx, sim, F, shape, m)
    first = tuple(case['first'])
    if case['depth'] == 3:
        lists = [(first,)] + [(first, b) for b in ARGS] + [(first, b, c) for b in ARGS for c in ARGS]
    else:
        valid = [x for x in ARGS if x[0] in NAMES[pol]]
        lists = [(first, tuple(case['second']), c, d) for c in valid for d in valid]
    des = np.ones(shape)
    for args in lists:
        got = []
        value = 0.1 + len(args)
        ok = True
        sim.eps_r = sim.eps_r           # no fields from the list before
        same = len(args) > 1 and COMPS.index(args[0][0]) % 2        # names need not differ
        al = [obj_arg('a' if same else 'a%d' % i, component=c, nl=n) for i, (c, n) in enumerate(args)]
        o = Optimization(Objective(fn(len(args), got, value), al), sim, des, eps_m=4)
        try:
            v = o.compute_J(sim)
        except Exception:
            ok = False
        ctx.op('compute_J')
        ctx.state(pol, *args)
        valid = all(c in NAMES[pol] for c, _ in args)
        ctx.check(ok == valid, lambda: 'arguments %s are %s for %s polarization' % (args, 'accepted' if ok else 'rejected', pol))
        if not valid:
            continue
        ctx.check(v == value, lambda: 'the value of the objective function is %g, %g is returned' % (value, v))
        ctx.check(len(got) >= 1 and len(got[-1]) == len(args), 'number of arguments passed')
        for i, (a, f) in enumerate(zip(args, got[-1])):
            want = F[a]
            ctx.check(np.shape(f) == shape and (rel(f, want) < 1e-7 or np.max(np.abs(want)) == 0 == np.max(np.abs(f))), lambda: 'argument %d of %s is not the field %s' % (i, args, a))
        ctx.trace_ok()


def swap(case, ctx, sim, F, shape, m):
    """replacing the objective function replaces its derivatives"""
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    pol, comp = case['pol'], case['comp']
    if comp not in NAMES[pol]:
        return ctx.state('none')
    if not np.any(F[comp, False]):
        return ctx.state('zero')
    des = np.ones(shape)
    W = np.eye(des.size)
    rho = (sim.eps_r - 1)/3
    sim.rho = rho
    prob = grads.Problem(m, sim.src)
    P = [np.abs(gen(shape, 4))/np.max(np.abs(F[comp, False]))**2]
    forms = list(grads.FORMS1)
    ob = Objective(grads.make_J(forms[0], 1, P), [obj_arg('a', component=comp)])
    o = Optimization(ob, sim, des, eps_m=4, beta=1e-9)
    for f in forms + forms[::-1]:
        ob.J = grads.make_J(f, 1, P)
        g, J, _ = grads.gradient(prob, [(comp, False)], f, P, rho, des, 4, W, 0.5, 1e-9)
        v, d = o.compute_J(sim), o.compute_dJ(sim, des)
        ctx.op('swap %s' % f, 3)
        ctx.state(pol, comp, f)
        ctx.check(abs(v - J) <= 1e-8*abs(J) + 1e-12, lambda: 'after replacing the objective function its value is %.9g, not %.9g: %s' % (v, J, case))
        ctx.check(np.max(np.abs(d - g)) <= 1e-6*np.max(np.abs(g)), lambda: 'after replacing the objective function the gradient is that of another one: %s' % case)
    ctx.trace_ok()
