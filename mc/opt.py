"""a small optimization problem in angler and in the reference model, shared by the checks of the optimizers"""
import numpy as np

from mc import ref, grads
from mc.util import *
from mc.checks.c12 import design

PROBLEMS = {'Ez': ('Ez', [('Ez', False)], 'int'), 'Hx': ('Ez', [('Hx', False)], 'int'), 'Hz': ('Hz', [('Hz', False)], 'int'), 'Ey': ('Hz', [('Ey', False)], 'int'),
            'kerr': ('Ez', [('Ez', True)], 'int'), 'mixed': ('Ez', [('Ez', True), ('Ez', False)], 'sum')}


def start_rho(kind, shape):
    if kind == 'zero':
        return np.zeros(shape)
    if kind == 'one':
        return np.ones(shape)
    if kind == 'half':
        return np.full(shape, 0.5)
    if kind in ('ints', 'bools'):       # a binary design, given as integers
        return (np.add.outer(np.arange(shape[0]), np.arange(shape[1])) % 3 == 0)*1.0
    if kind == 'mixed':
        return np.clip(1.6*gen(shape, 3) - 0.3, 0, 1)
    if kind == 'gen':
        return 0.1 + 0.8*gen(shape, 3)
    raise KeyError(kind)


def background(kind, shape, pol):
    e = {'ones': np.ones(shape), 'gen': 1 + 3*gen(shape, 5), 'lossy': 1 + 3*gen(shape, 5) - 0.3j*gen(shape, 6), 'low': 0.4 + 0.3*gen(shape, 5),
         'high': 14 + gen(shape, 5), 'neg': -2 - gen(shape, 5),
         'metal': np.where(np.add.outer(np.arange(shape[0]), np.arange(shape[1])) < max(shape)//2, -5 - 0.4j, 1 + 3*gen(shape, 5))}[kind]
    if pol == 'Hz' and kind != 'neg':
        e = e - 0.2j
    return e


# domains for filters of small and large radius, and sources
GEO = [((9, 8), (2, 2)), ((8, 10), (0, 2)), ((10, 7), (3, 0)), ((8, 8), (1, 1)), ((7, 6), (0, 0)), ((12, 1), (3, 0)), ((1, 11), (0, 2)), ((6, 12), (1, 3)), ((14, 13), (2, 3)), ((9, 9), (0, 0))]
GEO2 = [((9, 13), (0, 2)), ((13, 9), (2, 0)), ((12, 12), (0, 0)), ((11, 8), (0, 0)), ((12, 14), (1, 0)), ((1, 12), (0, 0)), ((12, 1), (0, 0))]
SOURCES = [lambda s: src_of('mid', s) + 0.1*src_of('line', s), lambda s: src_of('mid', s), lambda s: src_of('real', s)*0.3, lambda s: src_of('imag', s)*20, lambda s: src_of('gen', s)*1e-4,
           lambda s: src_of('spread', s), lambda s: src_of('line', s)*7]


class Prob:
    def __init__(self, problem, region, filt, start, back='gen', shape=None, npml=None, em=5.0, strength=0.05, amp=30, gscale=1.0, src=None, phys=0, geo=0, sk=0, **kw):
        from angler import Optimization
        from angler.objective import Objective, obj_arg
        self.pol, self.args, self.form = PROBLEMS[problem]
        em = complex(*em) if isinstance(em, (list, tuple)) else em
        if shape is None:       # a grid on which the filter acts on some of the cells (it spares those close to a PML)
            if (filt[0] or 0) >= 2:
                shape, npml = GEO2[geo % len(GEO2)]
            elif geo == 0 and region == 'block':
                shape, npml = (9, 9), (2, 1)
            else:
                shape, npml = GEO[geo % len(GEO)]
            if (shape[1] == 1 and problem == 'Hx') or (shape[0] == 1 and problem == 'Ey'):
                shape, npml = GEO2[0] if (filt[0] or 0) >= 2 else GEO[0]       # this component vanishes in one dimension
            if max(npml) <= 1 and start in ('ints', 'bools'):
                npml = (2, 0) if shape[0] > 4 else (0, 2)
        self.shape, self.npml, self.em = tuple(shape), tuple(npml), em
        self.om, self.dl, self.L0 = PHYS[phys]
        self.des = design(region, self.shape)
        self.inside = self.des.astype(bool)
        self.R, self.eta, self.beta = filt
        n = self.shape[0]*self.shape[1]
        self.W = np.eye(n) if self.R is None else ref.filter_matrix(*self.shape, self.des, self.npml, self.R)
        eb = background(back if start not in ('ints', 'bools') else 'ones', self.shape, 'Ez' if start in ('ints', 'bools') else self.pol)
        if max(self.npml) <= 1 and start not in ('ints', 'bools'):      # far from resonances
            eb = eb - 0.2j
        self.eps0 = eb.copy()
        rho = (eb - 1)/(em - 1)
        rho[self.inside] = start_rho(start, self.shape)[self.inside]
        self.rho0 = rho
        self.nl = any(a[1] for a in self.args)
        self.src = SOURCES[sk % len(SOURCES)](self.shape)*amp if src is None else src
        self.regs = []
        eps = self.eps(rho)
        f0 = self.model(eps).solve_sparse(self.src)
        if min(np.max(np.abs(f0[0])), np.max(np.abs(f0[1]))) < 1e-6*max(np.max(np.abs(f0[0])), np.max(np.abs(f0[1]))) and min(self.shape) > 1:
            self.src = src_of('gen', self.shape)*amp        # the source has a symmetry because of which one of the fields vanishes
            f0 = self.model(eps).solve_sparse(self.src)
        self.f0 = f0
        if self.nl:
            chi = strength*(1 if geo == 0 and sk == 0 else 0.2)*self.L0**2/3/np.max(np.abs(f0[2]))**2
            self.regs = [(chi, np.ones(self.shape), em)]
        w = np.abs(gen(self.shape, 9))*(np.add.outer(np.arange(self.shape[0]), np.arange(self.shape[1])) % 3 == 0)
        self.P = [w/max(np.max(np.abs(f0[grads.IDX[self.pol][c]])), 1e-300)**2 for c, _ in self.args]
        g = self.grad(rho)[0]
        s = np.max(np.abs(g[self.inside])) if self.inside.any() else 1
        self.P = [p*gscale/(s or 1) for p in self.P]        # the largest derivative is gscale
        self.sim = sim_of(self.om, eps.copy(), self.dl, self.npml, self.pol, self.L0)
        self.sim.src = self.src.copy()
        self.sim.rho = rho.copy() if start not in ('ints', 'bools') else rho.astype(int if start == 'ints' else bool)
        for c, r, e in self.regs:
            self.sim.add_nl(c, r, eps_scale=True, eps_max=e)
        self.seen = []
        self.watch = False
        J = grads.make_J(self.form, len(self.args), self.P)
        self.objective = Objective(J, [obj_arg('a%d' % i, component=c, nl=n) for i, (c, n) in enumerate(self.args)])
        self.opt = Optimization(self.objective, self.sim, self.des, eps_m=em, R=self.R, eta=self.eta, beta=self.beta, **kw)

    def eps(self, rho):
        return ref.rho_to_eps(rho, self.des, self.em, self.W, self.eta, self.beta)

    def model(self, eps):
        return ref.Model(self.om, eps, self.dl, self.npml, self.pol, self.L0)

    def prob(self, rho, src=None):
        return grads.Problem(self.model(self.eps(rho)), self.src if src is None else src, ref.Kerr(self.regs, self.L0) if self.nl else None)

    def grad(self, rho, src=None):
        g, J, F = grads.gradient(self.prob(rho, src), self.args, self.form, self.P, rho, self.des, self.em, self.W, self.eta, self.beta)
        return np.where(self.inside, g, 0), J

    def value(self, rho, src=None):
        p = self.prob(rho, src)
        return grads.value(self.form, [p.field(c, nl) for c, nl in self.args], self.P)
