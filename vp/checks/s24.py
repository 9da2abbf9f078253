"""S24: Analytic example models agree with their stored counterparts."""

import itertools

import numpy as np
from scipy import constants, linalg

import elphmod
import elphmod.models.chain
import elphmod.models.graphene
import elphmod.models.tas2

from vp.checks.s20 import Scratch
from vp.harness import Property, HarnessError, check, close, equal, rng, \
    seeds, st, ints

P = Property('S24',
    'Chain, graphene, and TaS2 at random and high-symmetry wave vectors, with '
    'all unit, mass, and file options, compared with definitions from bond '
    'geometries, symmetries of the crystal, and literature parameters. '
    'Non-trivial: nonzero wave vectors.')

Ry = constants.value('Rydberg constant times hc in eV')
a0 = constants.value('Bohr radius') * 1e10
u = constants.atomic_mass / constants.m_e / 2
Npm = (a0 * 1e-10) ** 2 / (constants.e * Ry) # 1 N/m in Ry/bohr^2

pi = np.pi


def rotation(phi):
    phi = np.radians(phi)
    c, s = np.cos(phi), np.sin(phi)

    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def hexagonal(a, c):
    return np.array([[a, 0, 0], [-a / 2, a * np.sqrt(0.75), 0],
        [0, 0, c]]) / a0


R1 = [np.array([R1, R2, 0]) for R1 in range(-3, 4) for R2 in range(-3, 4)]


def shell(a, r, A, B, distance):
    """Bonds (R, d) between A at origin and B at R with given length."""

    bonds = []

    for R in R1:
        d = r[B] + R.dot(a) - r[A]

        if abs(np.linalg.norm(d) - distance) < 1e-4 * distance:
            bonds.append((R, d))

    return bonds


def phase(R, k):
    return np.exp(1j * np.dot(R, k))


class Bonds:
    """Force constants generated from representative bonds by symmetry."""

    def __init__(self, a, r, M, group):
        self.a = a
        self.r = r
        self.M = np.repeat(M, 3)
        self.group = group
        self.phi = dict()

    def locate(self, x):
        for A in range(len(self.r)):
            R = np.linalg.solve(self.a.T, x - self.r[A])

            if np.allclose(R, np.round(R), atol=1e-5):
                return A, np.round(R).astype(int)

        raise HarnessError('symmetry of crystal')

    def add(self, A, B, R, phi):
        new = dict()

        for S in self.group:
            C, RC = self.locate(S.dot(self.r[A]))
            D, RD = self.locate(S.dot(self.r[B] + np.dot(R, self.a)))

            image = S.dot(phi).dot(S.T)

            for key, value in [((C, D) + tuple(RD - RC), image),
                    ((D, C) + tuple(RC - RD), image.T)]:

                if not np.allclose(new.setdefault(key, value), value):
                    raise HarnessError('symmetry of force constants')

        for key in new:
            if key in self.phi:
                raise HarnessError('bond exists')

        self.phi.update(new)
        return len(new)

    def D(self, q):
        D = np.zeros((len(self.r) * 3,) * 2, dtype=complex)

        for (A, B, *R), phi in self.phi.items():
            x = slice(3 * A, 3 * A + 3)
            y = slice(3 * B, 3 * B + 3)

            D[x, y] += phi * phase(R, q)
            D[x, x] -= phi # acoustic sum rule

        return D / np.sqrt(np.outer(self.M, self.M))


class Chain:
    module = elphmod.models.chain
    size = 1
    dim = 1
    M = np.array([1.0]) * u
    at = np.diag([1.0, 20.0, 20.0]) / a0
    tau = np.zeros((1, 3))

    def H(self, k):
        return np.array([[-0.5 * (phase([1, 0, 0], k)
            + phase([-1, 0, 0], k))]])

    def D(self, q):
        return np.eye(3) * (0.05 / Ry) ** 2 * (1
            - 0.5 * phase([1, 0, 0], q) - 0.5 * phase([-1, 0, 0], q))

    def g(self, q, k):
        """<0|dH/du|R> changes sign with bond direction."""

        g = np.zeros((3, 1, 1), dtype=complex)

        for R in 1, -1:
            g[0] += 0.5 * 0.02 / Ry ** 1.5 * R * phase([R, 0, 0], k) * (
                phase([R, 0, 0], q) - 1)

        return g


class Graphene:
    module = elphmod.models.graphene
    size = 2
    dim = 2
    M = np.array([12.011, 12.011]) * u
    at = hexagonal(2.46, 15.0)
    tau = np.dot([[2 / 3, 1 / 3, 0], [1 / 3, 2 / 3, 0]], at)

    def __init__(self):
        # origin at center of hexagon
        group = [rotation(60 * n).dot(np.diag([1, m, z])) for n in range(6)
            for m in (1, -1) for z in (1, -1)]

        self.bonds = Bonds(self.at, self.tau, self.M, group)

        x, y, z = np.array([365.0, 245.0, 98.2]) * Npm # radial, tang., out

        R, d = shell(self.at, self.tau, 0, 1, 2.46 / np.sqrt(3) / a0)[0]
        V = rotation(np.degrees(np.arctan2(d[1], d[0])))
        equal(self.bonds.add(0, 1, R,
            V.dot(np.diag([-x, -y, -z])).dot(V.T)), 6, 'bonds')

        # next-nearest neighbors ensure rotational invariance:
        equal(self.bonds.add(0, 0, [1, 0, 0], np.diag([0, y / 6, z / 6])), 12,
            'bonds')

        self.D = self.bonds.D

        self.t = -2.6
        self.l = 2.46 / np.sqrt(3) / a0

    def H(self, k):
        H = np.zeros((2, 2), dtype=complex)

        for a, b in (0, 1), (1, 0):
            for R, d in shell(self.at, self.tau, a, b, self.l):
                H[a, b] += self.t * phase(R, k)

        return H

    def g(self, q, k):
        g = np.zeros((2, 3, 2, 2), dtype=complex)

        for a, b in (0, 1), (1, 0):
            for R, d in shell(self.at, self.tau, a, b, self.l):
                slope = -2.0 * self.t / Ry / self.l * d / np.linalg.norm(d)

                g[b, :, a, b] += slope * phase(R, k + q)
                g[a, :, a, b] -= slope * phase(R, k)

        return g.reshape((6, 2, 2)) / np.sqrt(np.repeat(self.M,
            3))[:, np.newaxis, np.newaxis]

    def W(self, q):
        W = np.zeros((2, 2), dtype=complex)

        for a, b, l, U in [(0, 1, 1 / np.sqrt(3), 5.5), (0, 0, 1, 4.1),
                (0, 1, 2 / np.sqrt(3), 3.6), (0, 0, 0, 9.3)]:
            for x, y in {(a, b), (b, a), (1 - a, 1 - b)}:
                bonds = shell(self.at, self.tau, x, y, l * 2.46 / a0) if l \
                    else [([0, 0, 0], 0)]

                for R, d in bonds:
                    W[x, y] += U * phase(R, q)

        return W


class TaS2:
    module = elphmod.models.tas2
    size = 3
    dim = 2
    M = np.array([180.95, 32.06, 32.06]) * u
    at = hexagonal(3.34, 15.0)
    tau = np.dot([[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, 0.1],
        [2 / 3, 1 / 3, -0.1]], at)

    def __init__(self):
        group = [rotation(120 * n).dot(np.diag([m, 1, z])) for n in range(3)
            for m in (1, -1) for z in (1, -1)]

        bonds = Bonds(self.at, self.tau - self.tau[0], self.M, group)

        def springs(phi, **k):
            m = np.zeros((3, 3))
            for key, value in k.items():
                m['xyz'.index(key[0]), 'xyz'.index(key[-1])] = value * Npm
            V = rotation(phi)
            return -V.dot(m).dot(V.T)

        n = [bonds.add(0, 1, [0, 0, 0], springs(-30, x=43.8, y=9.0, z=57.3,
                xz=51.7, zx=39.2)),
            bonds.add(2, 1, [0, 0, 0], springs(0, x=3.4, y=3.4, z=38.1)),
            bonds.add(0, 0, [1, 0, 0], springs(0, x=-5.4, y=-4.6, z=-19.0)),
            bonds.add(1, 1, [1, 0, 0], springs(0, x=14.3, y=-1.7, z=-4.8,
                yz=2.4, zy=2.4)),
            bonds.add(0, 1, [1, 1, 0], springs(30, x=8.0, y=8.0, z=1.8)),
            bonds.add(2, 1, [1, 0, 0], springs(0, x=2.0, y=-5.6, z=2.1,
                yz=3.0, zy=-3.0))]

        equal(n, [12, 2, 6, 12, 12, 12], 'bonds')

        self.D = bonds.D
        self.l = 3.34 / a0

        self.t0 = np.array([[-0.14, 0.48, -0.38], [0.48, -0.26, 0.31],
            [0.38, -0.31, 0.32]])

    def t(self, d):
        """Slater-Koster hopping between dz2, dx2-y2, and dxy orbitals."""

        phi = np.arctan2(d[1], d[0])

        # There is a threefold rotation axis and H(-R) = H(R)^T.

        t0 = self.t0 if np.cos(3 * phi) > 0 else self.t0.T

        V = linalg.block_diag([[1]], rotation(np.degrees(2 * phi))[:2, :2])

        return V.dot(t0).dot(V.T) * np.exp(-5.0 * (np.linalg.norm(d) / self.l
            - 1))

    def neighbors(self):
        return shell(self.at, self.tau, 0, 0, self.l)

    def H(self, k):
        H = np.diag([1.85, 2.3, 2.3]).astype(complex)

        for R, d in self.neighbors():
            H += self.t(d) * phase(R, k)

        return H

    def g(self, q, k):
        g = np.zeros((9, 3, 3), dtype=complex)

        for R, d in self.neighbors():
            for x in range(3):
                h = 1e-4 * np.eye(3)[x] # central differences

                slope = (8 * self.t(d + h) - 8 * self.t(d - h)
                    - self.t(d + 2 * h) + self.t(d - 2 * h)) / 12e-4 / Ry

                g[x] += slope * (phase(R, k + q) - phase(R, k))

        return g / np.sqrt(self.M[0])


models = dict(chain=Chain(), graphene=Graphene(), tas2=TaS2())
created = dict()


def create(name, rydberg, divide_mass):
    """Models do not depend on anything else."""

    key = name, rydberg, divide_mass

    if key not in created:
        created[key] = models[name].module.create(rydberg=rydberg,
            divide_mass=divide_mass)

    return created[key]


def vectors(g, dim, kind):
    """q, k"""

    if kind == 'random':
        v = g.uniform(-2 * pi, 4 * pi, (2, 3))
    elif kind == 'special':
        v = 2 * pi * g.integers(-12, 13, (2, 3)) / 6
    elif kind == 'small':
        v = np.array([1e-3 * g.normal(size=3), g.uniform(-pi, pi, 3)])
    else:
        v = np.array([np.zeros(3), g.uniform(-pi, pi, 3)])

    return v


names = st.sampled_from(sorted(models))
kinds = st.sampled_from(['random', 'random', 'special', 'small', 'Gamma'])


@P.sub('analytic', quick=6000, seed=seeds, name=names, kind=kinds,
    dims=st.booleans())
def analytic(c):
    """Functions of wave vectors vs. geometrical definition."""

    g = rng(c.seed)
    ref = models[c.name]
    module = ref.module
    q, k = vectors(g, ref.dim, c.kind)

    n = ref.dim if c.dims else 3 # unused dimensions may be omitted
    Q = q[:n]
    K = k[:n]

    scale = np.sqrt(np.repeat(ref.M, 3))

    H = module.hamiltonian(*K)
    D = module.dynamical_matrix(*Q)

    equal(np.shape(H), (ref.size,) * 2, 'size of Hamiltonian')

    close(H * Ry, ref.H(k), 'Hamiltonian', tol=1e-6)
    close(D * np.outer(scale, scale), ref.D(q) * np.outer(scale, scale),
        'dynamical matrix', tol=1e-6)

    coupling = module.coupling(*q, *K)

    close(coupling * scale[:, np.newaxis, np.newaxis],
        ref.g(q, k) * scale[:, np.newaxis, np.newaxis], 'coupling', tol=1e-6)

    if c.name == 'graphene':
        close(module.coulomb_interaction(*Q) * Ry, ref.W(q), 'interaction',
            tol=1e-6)

    return bool(np.any(q))


@P.sub('structure', quick=3600, seed=seeds, name=names, kind=kinds)
def structure(c):
    """Hermiticity, periodicity, time reversal, translational invariance."""

    g = rng(c.seed)
    ref = models[c.name]
    module = ref.module
    q, k = vectors(g, ref.dim, c.kind)
    G = 2 * pi * g.integers(-3, 4, 3)

    functions = [module.hamiltonian, module.dynamical_matrix]
    scales = [1.0, np.sqrt(np.outer(*[np.repeat(ref.M, 3)] * 2))]

    if c.name == 'graphene':
        functions.append(module.coulomb_interaction)
        scales.append(1.0)

    for f, s in zip(functions, scales):
        X = f(*q) * s

        close(X, X.conj().T, 'Hermitian', tol=1e-10)
        close(f(*q + G) * s, X, 'periodic', tol=1e-9)
        close(f(*-q) * s, X.conj(), 'time-reversal symmetric', tol=1e-10)

    s = np.sqrt(np.repeat(ref.M, 3))[:, np.newaxis, np.newaxis]

    X = module.coupling(*q, *k) * s

    close(module.coupling(*q + G, *k - G) * s, X, 'periodic', tol=1e-9)
    close(module.coupling(*-q, *-k) * s, X.conj(), 'time-reversal symmetric',
        tol=1e-10)
    close(module.coupling(*-q, *k + q) * s, X.conj().swapaxes(1, 2),
        'Hermitian', tol=1e-9)

    # Translations neither cost energy nor change the electrons:

    shift = np.kron(ref.M ** 0.5, np.eye(3)[g.integers(3)])

    close(module.dynamical_matrix().dot(shift) * s[:, 0, 0], 0 * shift,
        'acoustic sum rule', tol=1e-10)

    close(np.tensordot(shift, module.coupling(0, 0, 0, *k), 1),
        np.zeros((ref.size,) * 2), 'acoustic sum rule of coupling', tol=1e-10)

    # flexural modes of free-standing graphene:

    if c.name == 'graphene':
        x = g.normal(size=2)
        q = 2e-3 * x / np.linalg.norm(x)

        for t in 1, 2:
            ZA = min(np.linalg.eigvalsh(module.dynamical_matrix(*q
                * t)[2::3, 2::3]) * ref.M[0])

            check(abs(ZA) < 1e-9, 'quadratic dispersion', ZA=ZA)

    return bool(np.any(q))


@P.sub('created', quick=3600, seed=seeds, name=names, kind=kinds,
    rydberg=st.booleans(), divide_mass=st.booleans())
def stored(c):
    """Lattice models vs. geometrical definition and analytic functions."""

    g = rng(c.seed)
    ref = models[c.name]
    module = ref.module

    el, ph, elph, *elel = create(c.name, c.rydberg, c.divide_mass)

    q, k = vectors(g, ref.dim, c.kind)
    verify(c, ref, el, ph, elph, elel, q, k, 1e-6)

    unit = 1.0 if c.rydberg else Ry
    s = np.sqrt(np.repeat(ref.M, 3))
    mass = np.ones_like(s) if c.divide_mass else s

    close(el.H(*k), module.hamiltonian(*k) * unit, 'analytic Hamiltonian',
        tol=1e-6)
    close(ph.D(*q) * np.outer(s / mass, s / mass), module.dynamical_matrix(*q)
        * np.outer(s, s), 'analytic dynamical matrix', tol=1e-9)
    close(elph.g(*q, *k) * (s / mass)[:, np.newaxis, np.newaxis],
        module.coupling(*q, *k) * s[:, np.newaxis, np.newaxis],
        'analytic coupling', tol=1e-9)

    if c.name == 'graphene':
        close(elel[0].W(*q), module.coulomb_interaction(*q) * Ry,
            'analytic interaction', tol=1e-6)

    return bool(np.any(q))


def verify(c, ref, el, ph, elph, elel, q, k, tol, files=False):
    unit = 1 / Ry if c.rydberg else 1.0
    s = np.sqrt(np.repeat(ref.M, 3))
    mass = np.ones_like(s) if c.divide_mass else s

    equal(el.size, ref.size, 'number of orbitals')
    equal(ph.nat, len(ref.M), 'number of atoms')
    equal(el.rydberg, c.rydberg, 'unit')
    equal(ph.divide_mass, c.divide_mass, 'mass convention')
    equal(elph.divide_mass, c.divide_mass, 'mass convention')

    close(np.array(ph.M) / u, ref.M / u, 'masses', tol=1e-6)
    close(ph.a, ref.at, 'lattice vectors', tol=1e-6)
    close(ph.r, ref.tau, 'positions of atoms', tol=1e-6)

    check(elph.el is el and elph.ph is ph, 'coupling of other models')

    close(el.H(*k), ref.H(k) * unit, 'Hamiltonian', tol=tol)
    close(ph.D(*q) * np.outer(s / mass, s / mass), ref.D(q) * np.outer(s, s),
        'dynamical matrix', tol=tol)
    close(elph.g(*q, *k) * (s / mass)[:, np.newaxis, np.newaxis],
        ref.g(q, k) * s[:, np.newaxis, np.newaxis], 'coupling', tol=tol)

    equal(len(elel), int(c.name == 'graphene'), 'number of models')

    for W in elel:
        close(W.W(*q), ref.W(q), 'interaction', tol=tol)


@P.sub('files', quick=660, seed=seeds, name=names, rydberg=st.booleans(),
    divide_mass=st.booleans(), rydberg2=st.booleans(),
    divide_mass2=st.booleans())
def files(c):
    g = rng(c.seed)
    ref = models[c.name]

    with Scratch() as path:
        el, ph, elph, *elel = ref.module.create(path('x'), rydberg=c.rydberg,
            divide_mass=c.divide_mass)

        new_el = elphmod.el.Model(path('x'), rydberg=c.rydberg2)
        new_ph = elphmod.ph.Model(path('x.ifc'), divide_mass=c.divide_mass2)
        new_elph = elphmod.elph.Model(path('x.epmatwp'), path('x.wigner'),
            new_el, new_ph, divide_mass=c.divide_mass2)

        new_elel = [elphmod.elel.Model(Wmat=path('x.Wmat')) for W in elel]

    for n in range(3):
        q, k = vectors(g, ref.dim, ['random', 'special', 'Gamma'][n])

        verify(c, ref, el, ph, elph, elel, q, k, 1e-6)

        c2 = type(c)(c)
        c2.update(rydberg=c.rydberg2, divide_mass=c.divide_mass2)

        verify(c2, ref, new_el, new_ph, new_elph, new_elel, q, k, 2e-5)

    equal(new_ph.atom_order, ph.atom_order, 'order of atoms')

    return True


@P.sub('symmetry', quick=2400, seed=seeds, name=st.sampled_from(['graphene',
    'tas2']), n=st.integers(0, 5), mirror=st.booleans(), z=st.booleans())
def symmetry(c):
    """Energies have the symmetry of the lattice."""

    g = rng(c.seed)
    ref = models[c.name]

    el, ph, elph, *elel = create(c.name, False, True)

    S = rotation(60 * c.n).dot(np.diag([-1.0 if c.mirror else 1.0, 1.0,
        -1.0 if c.z else 1.0]))

    # Together with time-reversal symmetry, all dispersions are hexagonal.

    k = g.uniform(-pi, pi, 3)
    k[2] = 0.0

    b = 2 * pi * np.linalg.inv(ref.at).T

    K = np.linalg.solve(b.T, S.dot(k.dot(b)))

    close(np.linalg.eigvalsh(el.H(*K)), np.linalg.eigvalsh(el.H(*k)),
        'electron dispersion', tol=1e-9)

    close(1e6 * np.linalg.eigvalsh(ph.D(*K)),
        1e6 * np.linalg.eigvalsh(ph.D(*k)), 'phonon dispersion', tol=1e-8)

    for W in elel:
        close(np.linalg.eigvalsh(W.W(*K)), np.linalg.eigvalsh(W.W(*k)),
            'interaction', tol=1e-9)

    return c.n > 0 or c.mirror
