"""C26 linear solvers return the solution and are interchangeable"""
import itertools
import sys
import types

import numpy as np
import scipy.sparse as sp

from mc import ref
from mc.util import *

RULE = ('all 2x2 systems over an alphabet of entries x right-hand sides; the operators of simulations (also at frequencies where their diagonal vanishes) and their transposes x right-hand sides (real, integer, zero, huge, tiny, strided) x storage formats x backends; '
        'complex systems coupled to their conjugate; eigenvalues closest to a guess; whole simulations (fields, Kerr fields, gradients) with the other backend')
BOUND = {'quick': '5^4 (2x2) matrices x 6 right-hand sides; 5 grids', 'thorough': '7^4 matrices x 12 right-hand sides; 8 grids'}
ASSUMPTIONS = ['besides the installed default backend, the MKL backend is replaced by a stand-in with its interface (mc/pymkl_stub.py)', 'systems with condition number below 1e10']
ENT = [0, 1, -2, 3j, 1e-5 + 1e-5j, 1e6, 0.5 - 1j]
RHS = [(1, 0), (0, 1j), (1, -2), (2.5, 1e-8), (0, 0), (1e10j, 1), (-1, -1j), (3, 3), (1j, 1j), (1e-12, 1e-13), (7, 0), (1 - 1j, 1 + 1j)]
GRIDS = [((6, 5), (0, 0)), ((9, 8), (2, 2)), ((8, 11), (0, 3)), ((12, 1), (3, 0)), ((1, 9), (0, 2)), ((14, 12), (3, 3)), ((7, 7), (1, 0)), ((10, 9), (4, 1))]


def cases(tier):
    q = tier == 'quick'
    ent = range(5 if q else 7)
    out = []
    for be in ('scipy', 'pardiso', 'default'):
        for a, b in itertools.product(ent, ent):
            out.append(dict(kind='2x2', a=a, b=b, backend=be))
        for (s, n), k, p in itertools.product(GRIDS[:5 if q else 8], ['gen', 'lossy', 'metal', 'pt'], ['Ez', 'Hz']):
            out.append(dict(kind='op', shape=s, npml=n, eps=k, pol=p, backend=be))
            if be == 'default':
                out.append(dict(kind='eigs', shape=s, npml=n, eps=k, pol=p, backend=be))
    # frequencies at which the diagonal of the operator (nearly) vanishes
    for s, n, k, eb, p, be in itertools.product([(9, 8), (12, 1), (1, 9)] + ([] if q else [(11, 10), (16, 15), (5, 6)]), [(0, 0), (2, 0), (2, 2), (0, 3)], ('uni', 'gen', 'bin'), (1.0, 4.0, -2.0, 14.0), ('Ez', 'Hz'), ('default', 'scipy')):
        if npml_ok(s, n):
            out.append(dict(kind='crit', shape=s, npml=n, eps=k, eb=eb, pol=p, backend=be))
    for (s, n), k, p in itertools.product(GRIDS[:5 if q else 8], ['gen', 'lossy', 'pt'], ['Ez', 'Hz', 'kerr']):
        out.append(dict(kind='sim', shape=s, npml=n, eps=k, problem=p, backend='pardiso'))
    return out


def fresh_angler(with_mkl):
    """import angler with or without a (stand-in) MKL installed; returns the modules that were loaded before"""
    old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'angler' or k.startswith('angler.') or k == 'pyMKL'}
    if with_mkl:
        from mc import pymkl_stub
        mod = types.ModuleType('pyMKL')
        mod.pardisoSolver = pymkl_stub.pardisoSolver
        pymkl_stub.pardisoSolver.used.clear()
        sys.modules['pyMKL'] = mod
    return old


def run(case, ctx):
    if case['backend'] != 'pardiso':
        return go(case, ctx)
    old = fresh_angler(True)
    try:
        go(case, ctx)
        from mc import pymkl_stub
        ctx.check(len(pymkl_stub.pardisoSolver.used) > 0 or ctx.n_ops == 0, 'the installed MKL backend was not used: %s' % case)
    finally:
        for k in [k for k in sys.modules if k == 'angler' or k.startswith('angler.') or k == 'pyMKL']:
            del sys.modules[k]
        sys.modules.update(old)


def same(A):
    A = A.tocsr().copy()
    A.sort_indices()
    return A.indptr.tobytes() + A.indices.tobytes() + A.data.tobytes() + str(A.dtype).encode()


def try_direct(ctx, case, A, b, what):
    from angler.linalg import solver_direct
    kw = {} if case['backend'] == 'default' else dict(solver=case['backend'])
    if what.endswith(('real', 'view')):
        kw['timing'] = True
    ka, kb = same(A), np.array(b)
    x = np.asarray(solver_direct(A, b, **kw))
    ctx.op('direct')
    n = A.shape[0]
    ctx.check(x.shape == (n,), lambda: 'shape %s of the solution: %s %s' % (x.shape, what, case))
    ctx.check(same(A) == ka and np.array_equal(np.asarray(b), kb), lambda: 'the solver modified its inputs: %s %s' % (what, case))
    D = A.toarray()
    bb = np.asarray(b).astype(complex).ravel()
    r = D @ x - bb
    s = np.abs(D) @ np.abs(x) + np.abs(bb)      # componentwise backward error
    ctx.check(np.all(np.isfinite(x)) and np.max(np.abs(r)) <= 1e-9*np.max(s) + 0, lambda: 'residual %.3g of %.3g: %s %s' % (np.max(np.abs(r)), np.max(s), what, case))
    if not bb.any():
        ctx.check(not x.any(), 'the solution for a zero right-hand side is not zero: %s %s' % (what, case))
    return x


def try_c2r(ctx, case, A11, A12, b, what):
    from angler.linalg import solver_complex2real
    kw = {} if case['backend'] == 'default' else dict(solver=case['backend'])
    if what.endswith('int'):
        kw['timing'] = True
    k1, k2, kb = same(A11), same(A12), np.array(b)
    x = np.asarray(solver_complex2real(A11, A12, b, **kw))
    ctx.op('complex2real')
    ctx.check(same(A11) == k1 and same(A12) == k2 and np.array_equal(np.asarray(b), kb), lambda: 'the solver modified its inputs: %s %s' % (what, case))
    a, c = A11.toarray(), A12.toarray()
    bb = np.asarray(b).astype(complex).ravel()
    ctx.check(x.shape == bb.shape and np.all(np.isfinite(x)), lambda: 'shape or value of the solution: %s %s' % (what, case))
    r = a @ x + c @ np.conj(x) - bb
    s = np.max((np.abs(a) + np.abs(c)) @ np.abs(x) + np.abs(bb))
    ctx.check(np.max(np.abs(r)) <= 1e-9*s, lambda: 'residual %.3g of %.3g in the coupled system: %s %s' % (np.max(np.abs(r)), s, what, case))
    return x


def real_form(a, c):
    return np.block([[(a + c).real, (c - a).imag], [(a + c).imag, (a - c).real]])


def go(case, ctx):
    kind = case['kind']
    if kind == '2x2':
        n = 5 if ctx.tier == 'quick' else 7
        for c, d in itertools.product(range(n), range(n)):
            D = np.array([[ENT[case['a']], ENT[case['b']]], [ENT[c], ENT[d]]], complex)
            if np.linalg.cond(D) > 1e10 or not np.isfinite(np.linalg.cond(D)):
                continue
            A = sp.csr_matrix(D)
            for b in RHS[:6 if ctx.tier == 'quick' else 12]:
                try_direct(ctx, case, A, np.array(b), 'matrix %s, right-hand side %s' % (D.tolist(), b))
            ctx.state(case['backend'], case['a'], case['b'], c, d)
            for k, C in enumerate((np.diag([0.3, 0.2j]), np.zeros((2, 2)), np.array([[0, 1], [0.5j, 0]]))):
                R = real_form(D, C.astype(complex))
                if np.linalg.cond(R) < 1e10:
                    try_c2r(ctx, case, A, sp.csr_matrix(C.astype(complex)), np.array(RHS[(c + d + k) % 6]), 'matrices %s, %s' % (D.tolist(), C.tolist()))
            ctx.trace_ok()
        return
    if kind == 'sim':
        return sim_case(case, ctx)
    if kind == 'crit':
        return crit_case(case, ctx)
    shape, npml = tuple(case['shape']), tuple(case['npml'])
    eps = eps_of(case['eps'], shape) - 0.1j
    sim = sim_of(OM, eps, 0.1, npml, case['pol'])
    A = sim.A
    n = A.shape[0]
    if kind == 'eigs':
        from angler.linalg import solver_eigs
        if n > 60:
            pass
        D = A.toarray()/np.max(np.abs(A.toarray()))
        w = np.linalg.eigvals(D)
        for guess in (w.mean(), w[len(w)//3] + 1e-3, 0.01):
            k = 3
            d = np.sort(np.abs(w - guess))
            if d[0] < 1e-7 or d[k] - d[k - 1] < 1e-6 or d[k - 1] > 1e3:
                continue
            v, V = solver_eigs(sp.csr_matrix(D), k, guess_value=guess, **(dict(guess_vector=gen((n,), 2) + 0j, timing=True) if guess == 0.01 else {}))
            ctx.op('eigs')
            ctx.state('eigs', *[str(x) for x in case.values()], str(guess))
            ctx.check(len(v) == k and np.max(np.abs(np.sort(np.abs(v - guess)) - d[:k])) < 1e-7, lambda: 'eigenvalues %s are not the %d closest to %s: %s' % (v, k, guess, case))
            ctx.check(np.max(np.abs(D @ V - V*v)) < 1e-7 and np.min(np.linalg.norm(V, axis=0)) > 0.5, lambda: 'not eigenvectors: %s' % case)
        ctx.trace_ok()
        return
    D = A.toarray()
    if np.linalg.cond(D) > 1e10:
        return
    rhs = dict(gen=src_of('gen', shape), real=gen(shape, 5), int=src_of('int', shape), huge=src_of('huge', shape), tiny=src_of('tiny', shape), view=src_of('view', shape),
               F=np.asfortranarray(src_of('gen', shape)), flat=src_of('gen', shape).ravel(), zero=np.zeros(shape, complex), c64=src_of('c64', shape), col=src_of('gen', shape).reshape(-1, 1))
    for tr, fmt, (name, b) in itertools.product((False, True), ('csr', 'csc'), rhs.items()):
        M = (A.T if tr else A).asformat(fmt)
        x = try_direct(ctx, case, M, b, '%s%s %s' % ('transposed ' if tr else '', fmt, name))
        ctx.state(*[str(v) for v in case.values()], tr, fmt, name)
        if name in ('gen', 'int', 'zero', 'col'):
            dd = np.abs(D).max()
            C = sp.diags((0.1*dd*gen((n,), 3)*np.exp(1j*gen((n,), 8)*6))).asformat(fmt)
            if np.linalg.cond(real_form(M.toarray(), C.toarray())) < 1e10:
                try_c2r(ctx, case, M, C, b, '%s%s %s' % ('transposed ' if tr else '', fmt, name))
            # without coupling both solvers agree
            y = try_c2r(ctx, case, M, 0*C, b, 'uncoupled %s' % name)
            ctx.check(rel(y, x) < 1e-6 or np.max(np.abs(x)) == 0, 'the two solvers disagree: %s %s' % (name, case))
    ctx.trace_ok()


def crit_case(case, ctx):
    """the diagonal of the operator is (nearly) zero where omega^2 eps mu dl^2 is a small integer: a solver has to pivot"""
    shape, npml, eb = tuple(case['shape']), tuple(case['npml']), case['eb']
    eps = dict(uni=np.full(shape, eb), gen=eb*(1 + 0.1*gen(shape, 3)), bin=np.where(gen(shape, 4) > 0.5, eb, 1.0))[case['eps']]
    n = eps.size
    for t, d in itertools.product((1, 2, 3, 4, 6, 8), (0, 1e-12, 1e-6, 1e-3, -1e-2)):
        om = np.sqrt(t/abs(eb))*ref.C0/1e-7*(1 + d)
        A = sim_of(om, eps, 0.1, npml, case['pol']).A
        D = A.toarray()
        if np.linalg.cond(D) > 1e8:
            continue
        b = np.zeros(n, complex)
        b[n//2], b[n//3] = 1, 1j
        x = try_direct(ctx, case, A, b, 'critical frequency %s, %s' % (t, d))
        e = np.linalg.solve(D, b)
        ctx.check(rel(x, e) < 1e-6, lambda: 'the solution at the critical frequency %s, %s is off by %.3g: %s' % (t, d, rel(x, e), case))
        ctx.state(*[str(v) for v in case.values()], t, d)
        C = sp.diags(0.1*np.abs(D).max()*gen((n,), 3)*np.exp(1j*gen((n,), 8)*6)).tocsr()
        for Cx in (C, 0*C):
            R = real_form(D, Cx.toarray())
            if np.linalg.cond(R) < 1e8:
                x = try_c2r(ctx, case, A, Cx, b, 'critical frequency %s, %s' % (t, d))
                e = np.linalg.solve(R, np.hstack((b.real, b.imag)))
                ctx.check(rel(x, e[:n] + 1j*e[n:]) < 1e-6, lambda: 'the coupled solution at the critical frequency %s, %s: %s' % (t, d, case))
    ctx.trace_ok()


def sim_case(case, ctx):
    """a whole simulation and a gradient through the other backend"""
    from mc import grads
    from mc.opt import Prob
    shape, npml = tuple(case['shape']), tuple(case['npml'])
    pr = Prob(case['problem'], 'block' if min(shape) > 3 else 'line' if shape[1] == 1 else 'full', (None, 0.5, 2.0), 'gen', back='lossy', shape=shape, npml=npml)
    p = pr.prob(pr.rho0)
    J = grads.value(pr.form, [p.field(c, nl) for c, nl in pr.args], pr.P)
    g, _ = pr.grad(pr.rho0)
    v, d = pr.opt.compute_J(pr.sim), pr.opt.compute_dJ(pr.sim, pr.des)
    ctx.op('J, dJ', 2)
    ctx.state(*[str(x) for x in case.values()])
    ctx.check(abs(v - J) <= 1e-7*abs(J), lambda: 'objective %.9g, not %.9g with the other backend: %s' % (v, J, case))
    ctx.check(np.max(np.abs(np.where(pr.inside, d - g, 0))) <= 1e-6*np.max(np.abs(g)), lambda: 'gradient with the other backend: %s' % case)
    for s in ('newton', 'born') if pr.nl else ():
        F = pr.sim.solve_fields_nl(solver_nl=s)
        ctx.check(rel(F[2], p.nl[2]) < 1e-7, 'nonlinear fields with the other backend (%s): %s' % (s, case))
        ctx.op(s)
    ctx.trace_ok()
