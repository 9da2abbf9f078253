"""Independent reference formulas."""

import numpy as np
from scipy.special import erfc, expit

pi = np.pi


class Smearing:
    """f, f', f'' and w with w' = f as functions of x = energy / kT."""

    def __init__(self, name, d=5.0):
        self.name = name
        self.d = d

    def f(self, x):
        n = self.name
        if n == 'fd':
            return expit(-x)
        if n == 'gauss':
            return erfc(x) / 2
        if n == 'mp':
            return erfc(x) / 2 - x * np.exp(-x * x) / (2 * np.sqrt(pi))
        if n == 'mv':
            y = x + np.sqrt(0.5)
            return erfc(y) / 2 + np.exp(-y * y) / np.sqrt(2 * pi)
        if n == 'lorentz':
            return 0.5 - np.arctan(x / pi) / pi
        if n == 'double':
            return (expit(-x - self.d) + expit(-x + self.d)) / 2
        if n == 'two':
            return np.where(x < 0, expit(-x - self.d), expit(-x + self.d))

    def S(self, x):
        """Generalized entropy, integral of -t f'(t) from x to infinity."""
        n = self.name
        if n == 'fd':
            return np.logaddexp(0, x) - x * expit(x)
        if n == 'gauss':
            return np.exp(-x * x) / (2 * np.sqrt(pi))
        if n == 'mp':
            return (1 - 2 * x * x) * np.exp(-x * x) / (4 * np.sqrt(pi))
        if n == 'mv':
            y = x + np.sqrt(0.5)
            return y * np.exp(-y * y) / np.sqrt(2 * pi)

    def df(self, x):
        n = self.name
        fd = lambda x: -0.25 / np.cosh(np.clip(x, -700, 700) / 2) ** 2
        if n == 'fd':
            return fd(x)
        if n == 'gauss':
            return -np.exp(-x * x) / np.sqrt(pi)
        if n == 'mp':
            return -(1.5 - x * x) * np.exp(-x * x) / np.sqrt(pi)
        if n == 'mv':
            y = x + np.sqrt(0.5)
            return -np.exp(-y * y) * (1 / np.sqrt(pi) + 2 * y
                / np.sqrt(2 * pi))
        if n == 'lorentz':
            return -1 / (x * x + pi * pi)
        if n == 'double':
            return (fd(x - self.d) + fd(x + self.d)) / 2
        if n == 'two':
            return np.where(x < 0, fd(x + self.d), fd(x - self.d))

    def ddf(self, x):
        n = self.name

        def fd(x):
            t = np.tanh(x / 2)
            return 0.25 * t * (1 - t * t)

        if n == 'fd':
            return fd(x)
        if n == 'gauss':
            return 2 * x * np.exp(-x * x) / np.sqrt(pi)
        if n == 'mp':
            return (2 * x + 2 * x * (1.5 - x * x)) * np.exp(-x * x
                ) / np.sqrt(pi)
        if n == 'mv':
            y = x + np.sqrt(0.5)
            return np.exp(-y * y) * (2 * y * (1 / np.sqrt(pi) + 2 * y
                / np.sqrt(2 * pi)) - 2 / np.sqrt(2 * pi))
        if n == 'lorentz':
            return 2 * x / (x * x + pi * pi) ** 2
        if n == 'double':
            return (fd(x - self.d) + fd(x + self.d)) / 2
        if n == 'two':
            return np.where(x < 0, fd(x + self.d), fd(x - self.d))

    def w(self, x):
        """Grand potential of a single state divided by kT."""

        n = self.name
        fd = lambda x: -np.logaddexp(0, -x)
        if n == 'fd':
            return fd(x)
        gauss = lambda x: x * erfc(x) / 2 - np.exp(-x * x) / (2 * np.sqrt(pi))
        if n == 'gauss':
            return gauss(x)
        if n == 'mp':
            return gauss(x) + np.exp(-x * x) / (4 * np.sqrt(pi))
        if n == 'mv':
            y = x + np.sqrt(0.5)
            return gauss(y) - erfc(y) / np.sqrt(8)
        if n == 'double':
            return (fd(x - self.d) + fd(x + self.d)) / 2
        if n == 'two':
            return np.where(x < 0, fd(x + self.d) - self.d, fd(x - self.d))

    def setup(self):
        """Function of the library with the same parameters."""

        import elphmod

        o = elphmod.occupations

        o.methfessel_paxton.order = 1
        o.double_fermi_dirac.d = self.d
        o.two_fermi_dirac.d = self.d

        return dict(fd=o.fermi_dirac, gauss=o.gauss, mp=o.methfessel_paxton,
            mv=o.marzari_vanderbilt, lorentz=o.lorentz,
            double=o.double_fermi_dirac, two=o.two_fermi_dirac)[self.name]

    def dd(self, a, b, kT, eps=1e-10):
        """First divided difference of occupations, elementwise."""

        a, b = np.broadcast_arrays(a, b)
        same = np.abs(a - b) <= eps
        with np.errstate(all='ignore'):
            d = (self.f(a / kT) - self.f(b / kT)) / (a - b)
        return np.where(same, self.df(b / kT) / kT, d)

    def ddd(self, a, b, c, kT):
        """Second divided difference for three numbers."""

        ab, bc, ca = abs(a - b) < 1e-10, abs(b - c) < 1e-10, abs(c - a) < 1e-10

        if ab and bc:
            return self.ddf(a / kT) / kT ** 2 / 2
        if ca: # (a, c, b)
            b, c = c, b
        elif bc:
            a, c = c, a
        # now a = b if any are degenerate
        if abs(a - b) < 1e-10:
            return (self.df(a / kT) / kT - (self.f(a / kT) - self.f(c / kT))
                / (a - c)) / (a - c)

        d = lambda x, y: (self.f(x / kT) - self.f(y / kT)) / (x - y)
        return (d(a, b) - d(b, c)) / (a - c)
