"""reference derivatives of objectives with respect to the material density (forward mode), shared by C14-C18"""
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl

from mc import ref


# ---------------------------------------------------------------- objectives: J(xp, fields, P), dJ(fields, dfields, P)

def _int(F, P):
    return np.sum(P*np.abs(F)**2)


FORMS1 = {
    'int': (lambda xp, F, P: xp.sum(xp.square(xp.abs(F[0]))*P[0]),
            lambda F, d, P: 2*np.sum(P[0]*np.real(np.conj(F[0])*d[0]))),
    're': (lambda xp, F, P: xp.sum(xp.real(F[0])*P[0]),
           lambda F, d, P: np.sum(np.real(d[0])*P[0])),
    'im': (lambda xp, F, P: xp.sum(xp.imag(F[0])*P[0]),
           lambda F, d, P: np.sum(np.imag(d[0])*P[0])),
    'abs': (lambda xp, F, P: xp.abs(xp.sum(F[0]*P[0]*(1 + 2j))),
            lambda F, d, P: np.real(np.conj(np.sum(F[0]*P[0]*(1 + 2j)))*np.sum(d[0]*P[0]*(1 + 2j)))/np.abs(np.sum(F[0]*P[0]*(1 + 2j)))),
    'quart': (lambda xp, F, P: xp.sum(xp.square(xp.square(xp.abs(F[0])))*P[0]),
              lambda F, d, P: 4*np.sum(P[0]*np.abs(F[0])**2*np.real(np.conj(F[0])*d[0]))),
    'log': (lambda xp, F, P: xp.log(xp.sum(xp.square(xp.abs(F[0]))*P[0])),
            lambda F, d, P: 2*np.sum(P[0]*np.real(np.conj(F[0])*d[0]))/np.sum(P[0]*np.abs(F[0])**2)),
    'square': (lambda xp, F, P: xp.real(xp.sum(F[0]*F[0]*P[0])),
               lambda F, d, P: 2*np.real(np.sum(F[0]*d[0]*P[0]))),
}


def _dints(F, d, P):
    return [2*np.sum(p*np.real(np.conj(f)*x)) for f, x, p in zip(F, d, P)]


FORMSN = {
    # a weighted sum, alternating signs; fields are scaled to comparable size by P
    'sum': (lambda xp, F, P: sum((-1.7)**i*xp.sum(xp.square(xp.abs(f))*p) for i, (f, p) in enumerate(zip(F, P))),
            lambda F, d, P: sum((-1.7)**i*x for i, x in enumerate(_dints(F, d, P)))),
    'prod': (lambda xp, F, P: _prod([xp.sum(xp.square(xp.abs(f))*p) for f, p in zip(F, P)]),
             lambda F, d, P: sum(x*_prod([_int(f, p) for j, (f, p) in enumerate(zip(F, P)) if j != i])
                                 for i, x in enumerate(_dints(F, d, P)))),
    # |sum F0 conj(F1) P|^2 + the rest: couples the arguments cell by cell
    'overlap': (lambda xp, F, P: xp.square(xp.abs(xp.sum(F[0]*xp.conj(F[1])*P[0])))
                + sum(xp.sum(xp.real(f)*p) for f, p in zip(F[2:], P[2:])),
                lambda F, d, P: 2*np.real(np.conj(np.sum(F[0]*np.conj(F[1])*P[0]))*np.sum((d[0]*np.conj(F[1]) + F[0]*np.conj(d[1]))*P[0]))
                + sum(np.sum(np.real(x)*p) for x, p in zip(d[2:], P[2:]))),
}


def _prod(l):
    r = 1.0
    for x in l:
        r = r*x
    return r


def make_J(form, n, P):
    """a function of exactly n arguments for angler's Objective"""
    import autograd.numpy as npa
    f = (FORMS1 if n == 1 and form in FORMS1 else FORMSN)[form][0]
    if n == 1:
        return lambda a: f(npa, [a], P)
    if n == 2:
        return lambda a, b: f(npa, [a, b], P)
    return lambda a, b, c: f(npa, [a, b, c], P)


def value(form, F, P):
    f = (FORMS1 if len(F) == 1 and form in FORMS1 else FORMSN)[form][0]
    return f(np, F, P)


def dvalue(form, F, d, P):
    f = (FORMS1 if len(F) == 1 and form in FORMS1 else FORMSN)[form][1]
    return f(F, d, P)


# ---------------------------------------------------------------- fields and their derivatives

IDX = {'Ez': {'Hx': 0, 'Hy': 1, 'Ez': 2}, 'Hz': {'Ex': 0, 'Ey': 1, 'Hz': 2}}


class Problem:
    """linear and Kerr fields of a model, and their derivatives along a change of eps"""

    def __init__(self, m, src, kerr=None):
        self.m, self.src, self.kerr = m, src, kerr
        self.A = m.sparse().tocsc()
        self.lu = spl.splu(self.A)
        b = 1j*m.omega*np.asarray(src).astype(complex).ravel()
        Z = self.lu.solve(b).reshape(m.Nx, m.Ny)
        self.lin = m.transverse(Z) + (Z,)
        self.nl = None
        if kerr is not None:
            E, ok, _ = ref.newton(m, kerr, src)
            self.ok = ok
            self.nl = m.transverse(E) + (E,)
            k = (m.omega**2*m.e0*kerr.coef(m.eps)).ravel()
            e = E.ravel()
            J11 = self.A + sp.diags(2*k*np.abs(e)**2)
            J12 = sp.diags(k*e**2)
            self.jac = spl.splu(sp.bmat([[(J11 + J12).real, (J12 - J11).imag], [(J11 + J12).imag, (J11 - J12).real]]).tocsc())

    def field(self, comp, nl):
        return (self.nl if nl else self.lin)[IDX[self.m.pol][comp]]

    def dfields(self, deps, nl):
        """derivative of the three components along deps (array of the grid's shape)"""
        m, w = self.m, self.m.omega
        if m.pol == 'Ez':
            if not nl:
                dZ = self.lu.solve(-(w**2*m.e0*deps*self.lin[2]).ravel().astype(complex)).reshape(m.Nx, m.Ny)
            else:
                E = self.nl[2]
                r = -(w**2*m.e0*deps*(1 + self.kerr.dcoef(m.eps)*np.abs(E)**2)*E).ravel().astype(complex)
                d = self.jac.solve(np.concatenate([r.real, r.imag]))
                dZ = (d[:r.size] + 1j*d[r.size:]).reshape(m.Nx, m.Ny)
            return m.transverse(dZ) + (dZ,)
        ex, ey = m.e0*ref.edge_avg(m.eps, 0), m.e0*ref.edge_avg(m.eps, 1)
        dex, dey = m.e0*ref.edge_avg(deps, 0), m.e0*ref.edge_avg(deps, 1)
        Z = self.lin[2]
        r = m.dxf(m.dxb(Z)*dex/ex**2) + m.dyf(m.dyb(Z)*dey/ey**2)
        dZ = self.lu.solve(r.ravel().astype(complex)).reshape(m.Nx, m.Ny)
        tx, ty = m.transverse(dZ)
        return tx - self.lin[0]*dey/ey, ty - self.lin[1]*dex/ex, dZ


def gradient(prob, args, form, P, rho, des, eps_m, W, eta, beta):
    """dJ/drho in every design cell (zero elsewhere).  args: list of (component, nl)"""
    m = prob.m
    F = [prob.field(c, nl) for c, nl in args]
    inside = np.asarray(des).astype(bool)
    slope = (eps_m - 1)*ref.dproject((W @ rho.ravel()), eta, beta)*inside.ravel()
    # derivative with respect to the permittivity of every design cell
    ge = np.zeros(m.Nx*m.Ny, complex)
    for k in np.flatnonzero(inside.ravel()):
        out = 0
        for unit in (1.0, 1j):
            deps = np.zeros(m.Nx*m.Ny, complex)
            deps[k] = unit
            if unit == 1j and not np.iscomplexobj(slope):
                continue
            dl = prob.dfields(deps.reshape(m.Nx, m.Ny), False) if any(not nl for _, nl in args) else None
            dn = prob.dfields(deps.reshape(m.Nx, m.Ny), True) if any(nl for _, nl in args) else None
            d = [(dn if nl else dl)[IDX[m.pol][c]] for c, nl in args]
            v = dvalue(form, F, d, P)
            out += v if unit == 1.0 else -1j*v
        ge[k] = out                       # dJ = Re(ge * deps)
    g = np.real(W.T @ (ge*slope))
    return g.reshape(m.Nx, m.Ny), value(form, F, P), F
