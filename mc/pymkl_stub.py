"""stand-in with the interface of pyMKL.pardisoSolver (the MKL is not installed): like the real one it takes the number type from mtype and reads the
entries of the matrix as that type, needs factor() before solve(), and cannot be used after clear()"""
import numpy as np


class pardisoSolver:
    used = []

    def __init__(self, A, mtype=11, verbose=False):
        A = A.tocsr()
        want = {11: np.float64, 13: np.complex128}[mtype]
        if A.data.dtype != want:
            raise TypeError('mtype %d needs %s entries, not %s' % (mtype, want.__name__, A.data.dtype))
        self.A, self.dtype, self.lu, self.dead = A, want, None, False
        pardisoSolver.used.append(mtype)

    def factor(self):
        import scipy.sparse.linalg as spl
        self.lu = spl.splu(self.A.tocsc())

    def solve(self, rhs):
        if self.lu is None or self.dead:
            raise RuntimeError('solve() before factor() or after clear()')
        rhs = np.asarray(rhs)
        if rhs.dtype != self.dtype:
            raise TypeError('right-hand side of type %s' % rhs.dtype)
        return self.lu.solve(rhs)

    def clear(self):
        self.dead = True
