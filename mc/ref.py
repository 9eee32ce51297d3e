"""Reference model: a small, dense, independent statement of what angler should compute.

Nothing here imports angler.  Fields live on a periodic Nx x Ny Yee grid; time convention exp(+i w t).
"""
import numpy as np

EPS0 = 8.85418782e-12
MU0 = 1.25663706e-6
ETA0 = np.sqrt(MU0/EPS0)
C0 = 1/np.sqrt(EPS0*MU0)


def db(f, axis, dl):
    """backward difference on the periodic grid: value on the edge between i-1 and i"""
    return (f - np.roll(f, 1, axis))/dl


def df(f, axis, dl):
    """forward difference: from the edges i, i+1 back to the cell i"""
    return (np.roll(f, -1, axis) - f)/dl


def edge_avg(f, axis):
    return (f + np.roll(f, 1, axis))/2


def edge_avg_T(f, axis):
    return (f + np.roll(f, -1, axis))/2


def sfactor(N, npml, dl, omega, L0, where):
    """complex stretching 1 - i sigma/(w eps0 L0), quartic grading, R = exp(-12)"""
    s = np.ones(N, complex)
    if npml < 1:
        return s
    depth_of = []
    for i in range(N):
        if where == 'cell':
            lo, hi = npml - (i + 0.5), (i + 0.5) - (N - npml)
        else:       # edge between i-1 and i
            lo, hi = npml - i, i - (N - npml)
        depth_of.append(max(lo, hi, 0.0))
    d = np.array(depth_of)
    dw = npml*dl
    sig = 5*12/(2*ETA0*dw)*(d*dl/dw)**4
    return 1 - 1j*sig/(omega*EPS0*L0)


class Model:
    """FDFD reference for one configuration"""

    def __init__(self, omega, eps, dl, npml, pol, L0=1e-6):
        eps = np.asarray(eps)
        if eps.ndim == 1:
            eps = eps.reshape((-1, 1))
        self.eps = eps.astype(complex)
        self.omega, self.dl, self.npml, self.pol, self.L0 = omega, dl, npml, pol, L0
        self.Nx, self.Ny = eps.shape
        self.e0, self.m0 = EPS0*L0, MU0*L0
        sx = {k: sfactor(self.Nx, npml[0], dl, omega, L0, k)[:, None] for k in ('cell', 'edge')}
        sy = {k: sfactor(self.Ny, npml[1], dl, omega, L0, k)[None, :] for k in ('cell', 'edge')}
        self.sx, self.sy = sx, sy

    # stretched differences
    def dxb(self, f):
        return db(f, 0, self.dl)/self.sx['edge']

    def dyb(self, f):
        return db(f, 1, self.dl)/self.sy['edge']

    def dxf(self, f):
        return df(f, 0, self.dl)/self.sx['cell']

    def dyf(self, f):
        return df(f, 1, self.dl)/self.sy['cell']

    def apply(self, X, eps=None):
        """A X for the z component"""
        eps = self.eps if eps is None else eps
        w = self.omega
        if self.pol == 'Ez':
            return (self.dxf(self.dxb(X)) + self.dyf(self.dyb(X)))/self.m0 + w**2*self.e0*eps*X
        ex, ey = self.e0*edge_avg(eps, 0), self.e0*edge_avg(eps, 1)
        return self.dxf(self.dxb(X)/ex) + self.dyf(self.dyb(X)/ey) + w**2*self.m0*X

    def matrix(self, eps=None):
        n = self.Nx*self.Ny
        A = np.zeros((n, n), complex)
        for k in range(n):
            e = np.zeros(n, complex)
            e[k] = 1
            A[:, k] = self.apply(e.reshape(self.Nx, self.Ny), eps).ravel()
        return A

    def sparse(self, eps=None):
        import scipy.sparse as sp
        eps = self.eps if eps is None else eps
        nx, ny = self.Nx, self.Ny

        def back(n):
            if n == 1:
                return sp.csr_matrix((1, 1))
            D = sp.lil_matrix((n, n))
            for i in range(n):
                D[i, i] += 1
                D[i, (i - 1) % n] -= 1
            return D.tocsr()/self.dl

        def dia(v):
            return sp.diags(np.broadcast_to(v, (nx, ny)).ravel())
        bx, by = sp.kron(back(nx), sp.eye(ny)), sp.kron(sp.eye(nx), back(ny))
        fx, fy = -bx.T, -by.T
        Bx, By = dia(1/self.sx['edge']) @ bx, dia(1/self.sy['edge']) @ by
        Fx, Fy = dia(1/self.sx['cell']) @ fx, dia(1/self.sy['cell']) @ fy
        w = self.omega
        if self.pol == 'Ez':
            return (Fx @ Bx + Fy @ By)/self.m0 + w**2*self.e0*dia(eps)
        ex, ey = self.e0*edge_avg(eps, 0), self.e0*edge_avg(eps, 1)
        return Fx @ dia(1/ex) @ Bx + Fy @ dia(1/ey) @ By + w**2*self.m0*sp.eye(nx*ny)

    def solve_sparse(self, src, eps=None):
        import scipy.sparse.linalg as spl
        b = 1j*self.omega*np.asarray(src).astype(complex).ravel()
        Z = spl.spsolve(self.sparse(eps).tocsc(), b).reshape(self.Nx, self.Ny)
        return self.transverse(Z, eps) + (Z,)

    def transverse(self, Z, eps=None):
        """(x, y) components that go with the z component"""
        eps = self.eps if eps is None else eps
        iw = 1j*self.omega
        if self.pol == 'Ez':
            return -self.dyb(Z)/iw/self.m0, self.dxb(Z)/iw/self.m0
        ex, ey = self.e0*edge_avg(eps, 0), self.e0*edge_avg(eps, 1)
        return self.dyb(Z)/iw/ey, -self.dxb(Z)/iw/ex

    def solve(self, src, eps=None):
        src = np.asarray(src).astype(complex).reshape(self.Nx, self.Ny)
        Z = np.linalg.solve(self.matrix(eps), (1j*self.omega*src).ravel()).reshape(self.Nx, self.Ny)
        X, Y = self.transverse(Z, eps)
        return X, Y, Z

    def solve_many(self, srcs, eps=None):
        b = np.array([1j*self.omega*np.asarray(s).astype(complex).ravel() for s in srcs]).T
        Z = np.linalg.solve(self.matrix(eps), b).T.reshape(-1, self.Nx, self.Ny)
        return [self.transverse(z, eps) + (z,) for z in Z]

    # which cells / edges lie outside the PML
    def interior(self):
        def rng(N, n):
            m = np.zeros(N, bool)
            m[n:N-n] = True
            return m
        return rng(self.Nx, self.npml[0])[:, None] & rng(self.Ny, self.npml[1])[None, :]


# ---------------------------------------------------------------- density -> permittivity

def filter_matrix(Nx, Ny, design, npml, R):
    """dense weighted-average filter.  Cells of the design region that are further than R cells from the
    PML are averaged with the cone R - distance (periodic where there is no PML); every other cell is kept."""
    N = Nx*Ny
    W = np.zeros((N, N))
    for i in range(Nx):
        for j in range(Ny):
            r = i*Ny + j
            okx = npml[0] == 0 or (R + npml[0] + 1 <= i < Nx - R - 1 - npml[0])
            oky = npml[1] == 0 or (R + npml[1] + 1 <= j < Ny - R - 1 - npml[1])
            if not (design[i, j] and okx and oky):
                W[r, r] = 1
                continue
            for a in range(-R, R + 1):
                for b in range(-R, R + 1):
                    w = R - np.sqrt(a*a + b*b)
                    if w > 0:
                        W[r, ((i + a) % Nx)*Ny + (j + b) % Ny] += w
            W[r] /= W[r].sum()
    return W


def project(r, eta, beta):
    return (np.tanh(beta*eta) + np.tanh(beta*(r - eta)))/(np.tanh(beta*eta) + np.tanh(beta*(1 - eta)))


def dproject(r, eta, beta):
    x = np.asarray(beta*(r - eta))
    far = np.abs(np.real(x)) > 300       # the hyperbolic cosine would overflow
    return beta*np.where(far, 0, 1/np.cosh(np.where(far, 0, x))**2)/(np.tanh(beta*eta) + np.tanh(beta*(1 - eta)))


def index(eps):
    """real part of the refractive index; that of a metal vanishes"""
    return np.sqrt(np.maximum(np.real(eps), 0))


def rho_to_eps(rho, design, eps_m, W, eta, beta):
    """permittivity of a density: filter, project and scale inside the design region only"""
    inside = project((W @ rho.ravel()).reshape(rho.shape), eta, beta)
    return np.where(design.astype(bool), 1 + inside*(eps_m - 1), 1 + rho*(eps_m - 1))


# ---------------------------------------------------------------- Kerr

class Kerr:
    """sum of Kerr regions: eps_nl = 3 chi/L0^2 region |E|^2 [ (eps-1)/(eps_max-1) ]"""

    def __init__(self, regions, L0=1e-6):
        self.regions, self.L0 = regions, L0     # (chi, region, eps_max or None)

    def eps_nl(self, E, eps):
        out = np.zeros(E.shape, complex)
        for chi, reg, emax in self.regions:
            t = 3*chi/self.L0**2*reg*np.abs(E)**2
            out = out + (t if emax is None else t*(eps - 1)/(emax - 1))
        return out

    def coef(self, eps):
        """k with eps_nl = k |E|^2"""
        out = np.zeros(np.shape(eps), complex)
        for chi, reg, emax in self.regions:
            t = 3*chi/self.L0**2*np.asarray(reg)
            out = out + (t if emax is None else t*(eps - 1)/(emax - 1))
        return out

    def dcoef(self, eps):
        """d k / d eps"""
        out = np.zeros(np.shape(eps), complex)
        for chi, reg, emax in self.regions:
            if emax is not None:
                out = out + 3*chi/self.L0**2*np.asarray(reg)/(emax - 1)
        return out


def newton(m, kerr, src, E0=None, eps=None, tol=1e-13, itmax=60, history=False):
    """Newton iteration for A(eps) E + w^2 eps0 k |E|^2 E = i w J (Ez polarization).  -> E, converged, steps"""
    import scipy.sparse as sp
    import scipy.sparse.linalg as spl
    eps = m.eps if eps is None else eps
    A = m.sparse(eps).tocsr()
    k = (m.omega**2*m.e0*kerr.coef(eps)).ravel()
    b = 1j*m.omega*np.asarray(src).astype(complex).ravel()
    E = (spl.spsolve(A.tocsc(), b) if E0 is None else np.asarray(E0).astype(complex).ravel())
    steps, ok, path = [], False, []
    for _ in range(itmax):
        f = A @ E + k*np.abs(E)**2*E - b
        J11 = A + sp.diags(2*k*np.abs(E)**2)
        J12 = sp.diags(k*E**2)
        J = sp.bmat([[(J11 + J12).real, (J12 - J11).imag], [(J11 + J12).imag, (J11 - J12).real]]).tocsc()
        d = spl.spsolve(J, np.concatenate([f.real, f.imag]))
        d = d[:E.size] + 1j*d[E.size:]
        E = E - d
        steps.append(np.linalg.norm(d)/np.linalg.norm(E))
        path.append(E.reshape(m.Nx, m.Ny))
        if steps[-1] < tol:
            ok = True
            break
    E = E.reshape(m.Nx, m.Ny)
    return (E, ok, steps, path) if history else (E, ok, steps)


def born(m, kerr, src, E0=None, eps=None, tol=1e-13, itmax=60):
    eps = m.eps if eps is None else eps
    import scipy.sparse as sp
    import scipy.sparse.linalg as spl
    A = m.sparse(eps)
    k = m.omega**2*m.e0*kerr.coef(eps)
    b = 1j*m.omega*np.asarray(src).astype(complex).ravel()
    E = (spl.spsolve(A.tocsc(), b) if E0 is None else np.asarray(E0).astype(complex).ravel())
    path, steps, ok = [], [], False
    for _ in range(itmax):
        P = E
        E = spl.spsolve((A + sp.diags(k.ravel()*np.abs(P)**2)).tocsc(), b)
        steps.append(np.linalg.norm(E - P)/np.linalg.norm(E))
        path.append(E.reshape(m.Nx, m.Ny))
        if steps[-1] < tol:
            ok = True
            break
    return E.reshape(m.Nx, m.Ny), ok, steps, path
