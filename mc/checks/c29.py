"""C29 invalid requests are rejected, valid ones are not"""
import copy
import itertools
import os

import numpy as np

from mc import ref, grads
from mc.util import *

RULE = ('construction with every combination of valid and invalid unit, frequency, PML and polarization; every sequence of valid and invalid requests up to the depth on one problem: an invalid request raises, '
        'and everything afterwards is what it is on a twin that never got the invalid requests')
BOUND = {'quick': 'all 9 x 7 x 11 x 11 combinations of the constructor arguments; all sequences up to length 2 over 26 requests, length 3 with the first or last one invalid over a smaller alphabet',
         'thorough': 'also on other shapes; all sequences up to length 3 over 26 requests x 3 problems'}
ASSUMPTIONS = ['an unknown direction of a mode may be reported when the mode is added or when it is set up']
L0S = [1e-6, 1.0, 1e-9, 0, 0.0, -1e-6, 1e-15, 1e5, -1e-15]
OMS = [OM, 1.0, 0, -OM, 1e-3, 1e18, -1e-3]
NPMLS = [[0, 0], [1, 1], [0, 2], [2, 0], [-1, 1], [1, -1], [1], [1, 1, 1], [], 1, None]
POLS = ['Ez', 'Hz', 'ez', 'Ex', '', 'TE', None, 'E', 'z', 'zH', 'EzHz']
SHAPES = [(5, 5), (5, 6)]

VALID = ['solve', 'nl', 'mode', 'addnl', 'eps', 'init', 'gd', 'J', 'flux']
INVALID = ['nl?', 'newtonHz', 'flux?', 'mode?', 'addnl?', 'addnlmax', 'abs', 're', 'diff', 'method?', 'methodtmp', 'probes', 'scansolver', 'wrongpol', 'arity', 'comp?', 'eps3', 'solver?', 'pow?']


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in SHAPES[:1] if q else SHAPES:
        for l, o in itertools.product(L0S, OMS):
            out.append(dict(kind='make', L0=l, omega=o, shape=s))
    out.append(dict(kind='solvers'))
    alpha = VALID + INVALID
    for p in ('Ez', 'Hz') if q else ('Ez', 'Hz', 'kerr'):
        for d in (1, 2) if q else (1, 2, 3):
            for s in itertools.product(alpha, repeat=d):
                if any(x in INVALID for x in s):
                    out.append(dict(kind='seq', problem=p, ops=s))
        if q:
            for a, b, c in itertools.product(INVALID[::3], VALID, VALID[::2]):
                out.append(dict(kind='seq', problem=p, ops=(c, a, b)))
    return out


def run(case, ctx):
    {'make': run_make, 'solvers': run_solvers, 'seq': run_seq}[case['kind']](case, ctx)


def run_make(case, ctx):
    from angler import Simulation
    shape = tuple(case['shape'])
    for npml, pol in itertools.product(NPMLS, POLS):
        good = case['L0'] > 0 and case['omega'] > 0 and isinstance(npml, list) and len(npml) == 2 and min(npml) >= 0 and pol in ('Ez', 'Hz')
        eps = 1 + gen(shape)
        keep = eps.copy()
        try:
            sim = Simulation(case['omega'], eps, 0.1, npml, pol, L0=case['L0'])
            ok = True
        except Exception:
            ok = False
        ctx.op('Simulation')
        ctx.state(case['L0'], case['omega'], npml, pol)
        where = 'Simulation(omega=%g, NPML=%s, pol=%r, L0=%g)' % (case['omega'], npml, pol, case['L0'])
        ctx.check(ok == good, lambda: '%s is %s' % (where, 'accepted' if ok else 'rejected'))
        ctx.check(np.array_equal(eps, keep), lambda: '%s changed its permittivity' % where)
        if good:
            ctx.check(sim.pol == pol and sim.L0 == case['L0'] and sim.omega == case['omega'] and list(sim.NPML) == npml and sim.src.shape == shape and not np.any(sim.src)
                      and all(v is None for v in sim.fields.values()), lambda: 'attributes of %s' % where)
            F = sim.solve_fields()
            ctx.check(len(F) == 3 and all(f.shape == shape and not np.any(f) for f in F), lambda: 'without a source the fields are not zero: %s' % where)
    ctx.trace_ok()


def run_solvers(case, ctx):
    import scipy.sparse as sp
    from angler.linalg import solver_direct, solver_complex2real
    A = sp.csr_matrix(np.diag([1.0, 2, 4]) + 0j)
    b = np.array([1, 2j, 3])
    for name, good in [('scipy', True), ('SciPy', True), ('foo', False), ('', False), ('scip', False), ('mumps', False)]:
        for f in (lambda: solver_direct(A, b, solver=name), lambda: solver_complex2real(A, 0*A, b, solver=name)):
            try:
                x = f()
                ok = True
            except Exception:
                ok = False
            ctx.op('solver %s' % name)
            ctx.state('solver', name)
            ctx.check(ok == good, 'the solver %r is %s' % (name, 'accepted' if ok else 'rejected'))
            ctx.check(not ok or rel(x, b/np.array([1, 2, 4])) < 1e-10, 'solution by %s' % name)
    ctx.trace_ok()


SH, NPML, EM = (11, 10), (2, 1), 5.0


class Twin:
    def __init__(self, problem):
        from angler import Optimization
        from angler.objective import Objective, obj_arg
        self.pol = 'Hz' if problem == 'Hz' else 'Ez'
        eps = np.ones(SH)
        eps[:, 4:7] = 4.0
        self.des = np.zeros(SH)
        self.des[5:8, 3:7] = 1
        self.sim = sim_of(OM, eps, 0.1, NPML, self.pol)
        self.sim.src = src_of('mid', SH)*3
        self.sim.rho = (eps - 1)/(EM - 1)
        self.nl = problem == 'kerr'
        m = ref.Model(OM, eps, 0.1, NPML, self.pol)
        self.f0 = np.max(np.abs(m.solve_sparse(self.sim.src)[2]))
        self.chi = 0.003*1e-12/3/self.f0**2
        if self.nl:
            self.sim.add_nl(self.chi, self.des, eps_scale=True, eps_max=EM)
        P = np.zeros(SH)
        P[8, 4:7] = 1/self.f0**2
        self.P = P
        self.opt = Optimization(Objective(grads.make_J('int', 1, [P]), [obj_arg('a', component=self.pol, nl=self.nl)]), self.sim, self.des, eps_m=EM, R=1, beta=2.0)
        self.k = 0

    def valid(self, op):
        sim = self.sim
        self.k += 1
        np.random.seed(self.k)
        if op == 'solve':
            return np.array(sim.solve_fields())
        if op == 'nl':
            if self.pol == 'Ez':
                return np.array(sim.solve_fields_nl(solver_nl=['born', 'newton', 'hybrid'][self.k % 3])[:3])
            return np.array(sim.solve_fields())
        if op == 'mode':
            sim.modes.clear()
            sim.add_mode(1.8, 'xy'[self.k % 2], [3, 5], 6, scale=2)
            sim.setup_modes()
            return np.array(sim.W_in)
        if op == 'addnl':
            if self.pol == 'Ez':
                sim.add_nl(self.chi/5, np.ones(SH))
            return np.array(len(sim.nonlinearity))
        if op == 'eps':
            sim.eps_r = np.where(self.des == 1, sim.eps_r, 1.2 + 0.1*self.k)
            return np.array(0)
        if op == 'init':
            sim.init_design_region(self.des, EM, style=['full', 'halfway', 'empty'][self.k % 3])
            return np.array(sim.rho)
        if op == 'gd':
            self.opt.run(method=['GD', 'gd', 'adam', 'LBFGS'][self.k % 4], Nsteps=1, step_size=0.05, verbose=False)
            return np.array(sim.rho)
        if op == 'J':
            return np.array([self.opt.compute_J(sim)])
        if op == 'flux':
            sim.solve_fields()
            return np.array([sim.flux_probe('x', [3, 5], 5), sim.flux_probe('y', [5, 3], 5)])
        raise KeyError(op)

    def invalid(self, op, scratch):
        """carries out an invalid request; True: applicable here"""
        from angler import Optimization
        from angler.objective import Objective, obj_arg
        from angler.plot import Temp_plt
        sim = self.sim
        unsolved = sim.fields[self.pol] is None
        if op == 'nl?':
            return sim.solve_fields_nl(solver_nl=['foo', 'Newton-Raphson', ''][self.k % 3])
        if op == 'newtonHz':
            if self.pol != 'Hz':
                return 'skip'
            return sim.solve_fields_nl(solver_nl='newton')
        if op == 'flux?':
            sim.solve_fields()
            return sim.flux_probe('z', [3, 5], 5)
        if op == 'mode?':
            n = len(sim.modes)
            try:
                sim.add_mode(1.8, 'z', [3, 5], 6)
                sim.modes[-1].setup_src(sim)
            finally:
                if len(sim.modes) > n:
                    sim.modes.pop()
            return None
        if op == 'addnl?':
            return sim.add_nl(1e-18, np.ones(SH), nl_type='chi2')
        if op == 'addnlmax':
            return sim.add_nl(1e-18, np.ones(SH), eps_scale=True)
        if op in ('abs', 're', 'diff'):
            if not unsolved:
                return 'skip'
            return getattr(sim, 'plt_' + op)()
        if op == 'method?':
            return self.opt.run(method=['SGD', 'L-BFGS', ''][self.k % 3], Nsteps=1, verbose=False)
        if op == 'methodtmp':
            return self.opt.run(method='newton', Nsteps=1, verbose=False, temp_plt=Temp_plt(folder=scratch + '/'))
        if op == 'probes':
            return self.opt.scan_power(Ns=2)
        if op == 'scansolver':
            s2 = copy.deepcopy(sim)
            s2.modes = []
            s2.add_mode(1.8, 'x', [3, 5], 6)
            o = Optimization(self.opt.objective, s2, self.des, eps_m=EM)
            return o.scan_power(probes=[lambda s: 1.0], Ns=2, s_min=1e-3, s_max=1e-2, solver='foo')
        if op == 'wrongpol':
            other = 'Hz' if self.pol == 'Ez' else 'Ez'
            o = Optimization(Objective(grads.make_J('int', 1, [self.P]), [obj_arg('a', component=other)]), sim, self.des, eps_m=EM)
            return o.compute_J(sim)
        if op == 'arity':
            return Objective(grads.make_J('int', 1, [self.P]), [obj_arg('a'), obj_arg('b')])
        if op == 'comp?':
            return obj_arg('a', component='Dz')
        if op == 'eps3':
            sim.eps_r = np.ones(SH + (2,))
            return None
        if op == 'solver?':
            from angler.linalg import solver_direct
            return solver_direct(sim.A, sim.src, solver='foo')
        if op == 'pow?':
            return self.opt.scan_power(probes=None, Ns=2, solver='newton')
        raise KeyError(op)


def snap(t):
    s = t.sim
    d = dict(eps=np.array(s.eps_r), rho=np.array(s.rho), src=np.array(s.src), om=np.array(s.omega), n=np.array([len(s.nonlinearity), len(s.modes), s.Nx, s.Ny] + list(s.NPML)),
             A=s.A.toarray(), J=np.array(t.opt.objfn_list, float), amp=np.array(t.opt.src_amplitudes, float), design=np.array(t.opt.design_region), dl=np.array([s.dl, s.L0]))
    return d


def run_seq(case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import shutil
    import tempfile
    a, b = Twin(case['problem']), Twin(case['problem'])
    scratch = tempfile.mkdtemp(prefix='mc_req_')
    try:
        open(os.path.join(scratch, 'keep.png'), 'w').write('x')
        for i, op in enumerate(case['ops']):
            if op in VALID:
                x, y = a.valid(op), b.valid(op)
                ctx.op(op, 2)
                ctx.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12*np.max(np.abs(y))), lambda: '%s gives another result after a rejected request: %s' % (op, case))
            else:
                before = snap(a)
                try:
                    r = a.invalid(op, scratch)
                except Exception:
                    r = 'rejected'
                ctx.op(op)
                if isinstance(r, str) and r == 'skip':
                    continue
                ctx.check(isinstance(r, str) and r == 'rejected', lambda: 'the invalid request %s is accepted: %s' % (op, case))
                after = snap(a)
                for k in before:
                    ctx.check(np.array_equal(before[k], after[k]), lambda: 'the rejected request %s changed %s: %s' % (op, k, case))
            ctx.state(case['problem'], *case['ops'][:i + 1])
        ctx.check(os.listdir(scratch) == ['keep.png'], 'a rejected optimization cleared the folder of the temporary images: %s' % case)
        for op in ('solve', 'nl', 'J'):
            x, y = a.valid(op), b.valid(op)
            ctx.check(np.allclose(x, y, rtol=1e-9, atol=1e-12*np.max(np.abs(y))), lambda: '%s gives another result after a rejected request: %s' % (op, case))
        ctx.trace_ok()
    finally:
        import matplotlib.pyplot as plt
        plt.close('all')
        shutil.rmtree(scratch, ignore_errors=True)
