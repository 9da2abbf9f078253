"""Table of typical calls of public functions for S27 and S28.

An entry receives a random generator and returns a function, its arguments, and
the dimensions of the results. An argument or result has the dimension (e, l, c)
= energy^e length^l coupling^c, where the coupling squared divided by an energy
is a self-energy, the unit of which is not tied to the one of the electrons.

The functions are called like by a user. Keyword arguments that carry units are
always specified explicitly, since their default values assume certain units.
"""

import numpy as np

import elphmod

from vp import gen

CALLS = {}
GROUPS = {}

group_name = None

b = elphmod.bravais
d = elphmod.diagrams
o = elphmod.occupations

E = (1, 0, 0)
iE = (-1, 0, 0)
L = (0, 1, 0)
C = (0, 0, 1)
ONE = (0, 0, 0)


class A:
    """Argument with dimension."""

    def __init__(self, value, dim=ONE, lists=False):
        self.value = value
        self.dim = dim
        self.lists = lists


def call(exact=True, scale=True):
    def register(function):
        CALLS[function.__name__] = (function, exact, scale)
        GROUPS.setdefault(group_name, []).append(function.__name__)
        return function

    return register


def energies(g, *shape):
    """Energies at least 0.02 apart."""

    n = int(np.prod(shape))
    e = g.permutation(n) * (4.0 / n) - 2.0 + g.uniform(0.0, 2.0 / n, n)

    return e.reshape(shape)


def unitary(g, *shape):
    return np.linalg.eigh((lambda x: x + x.conj().swapaxes(-1, -2))(gen.cplx(g,
        (*shape, shape[-1]))))[1]


def qpoints(g, nk, n, dim):
    return 2 * np.pi / nk * g.integers(0, nk, (n, dim))


smearings = ['fd', 'gauss', 'mv', 'mp', 'lorentz']


def smear(g):
    return smearings[g.integers(5)]


# --------------------------------------------------------------------------
# lattices

group_name = 'lattices'

@call()
def rotate(g):
    two = bool(g.integers(2))
    return lambda v, phi: b.rotate(v, phi, two), [A(g.normal(size=2 if two else
        3), L), A(g.uniform(-400, 400))], L


@call()
def primitives(g):
    i = int(g.choice([1, 2, 3, -3, 4, 5, -5, 6, 7, 8, 9, -9, 91, 10, 11, 12,
        -12, 13, -13, 14]))

    return lambda a, B, c, x, y, z: b.primitives(i, a, B, c, x, y, z), [
        A(g.uniform(3, 9), L), A(g.uniform(3, 9), L), A(g.uniform(3, 9), L),
        *[A(x) for x in g.uniform(-0.3, 0.3, 3)]], L


@call()
def reciprocals(g):
    return b.reciprocals, [A(x, L) for x in g.normal(size=(3, 3))], (0, -1, 0)


@call()
def volume(g):
    return b.volume, [A(x, L) for x in g.normal(size=(3, 3))], (0, 3, 0)


@call()
def area(g):
    return b.reciprocals, [A(x, L) for x in g.normal(size=(2, 2))], (0, -1, 0)


@call()
def coordinates(g):
    def function(r, a1, a2, a3):
        R = b.cartesian_to_crystal(r, a1, a2, a3)
        return R, b.crystal_to_cartesian(R, a1, a2, a3)

    return function, [A(g.normal(size=(3, 3)), L), *[A(x, L) for x in
        np.eye(3) * 4 + g.normal(size=(3, 3)) * 0.3]], [ONE, L]


@call()
def symmetries(g):
    nk = int(g.integers(1, 5))
    data = np.round(g.normal(size=(nk, nk)), 1)
    eps = 0.3

    def function(data, eps):
        return [np.array(x[-1], dtype=float) for x in b.symmetries(data, eps,
            False)]

    return function, [A(data, E), A(eps, E)], ONE


@call()
def complete(g):
    nk = int(g.integers(2, 6))
    full = np.empty((nk, nk))
    full[:] = np.nan
    for k in b.irreducibles(nk):
        full[k] = g.normal()

    def function(x):
        y = x[::-1, ::-1].copy()[::-1, ::-1] # completed in place
        b.complete(y)
        return y

    return function, [A(full, E)], E


@call()
def complete_k(g):
    nq = int(g.integers(1, 3))
    nk = nq * int(g.integers(1, 3))
    n = len(b.irreducibles(nq))

    return lambda x: b.complete_k(x, nq), [A(g.normal(size=(n, nk, nk)), E)], E


@call()
def stack(g):
    n = int(g.integers(1, 5))
    x = g.uniform(-5, 5, n)

    return lambda p, period: b.stack(*p, period=period), [A(x, E, True), A(2.5, E)], E


@call()
def linear_interpolation(g):
    nk = int(g.integers(1, 5))
    angle = int(g.choice([60, 90, 120]))
    shape = (nk, nk, 2)
    data = g.normal(size=shape)
    period = None

    if g.integers(2):
        period = 7.0
        data = g.uniform(-3, 3, shape)

    def function(data, x, period):
        f = b.linear_interpolation(data, angle, period=period)
        return f(x[0], x[1])

    return function, [A(data, E), A(g.uniform(-9, 9, (2, 3, 2))), A(period,
        E)], E


@call()
def resize(g):
    nk = int(g.integers(1, 5))
    angle = int(g.choice([60, 90, 120]))
    axes = [(0, 1), (1, 2), (2, 0)][g.integers(3)]
    shape = [2, 2, 2]
    for x in axes:
        shape[x] = nk
    new = tuple(map(int, g.integers(1, 7, 2)))
    periodic = bool(g.integers(2))

    return lambda x: b.resize(x, new, angle, axes=axes, periodic=periodic), [
        A(g.normal(size=shape), E)], E


@call(scale=False)
def Fourier_interpolation(g):
    nk = int(g.integers(1, 5))
    angle = int(g.choice([60, 90]))

    def function(data, x):
        f = b.Fourier_interpolation(data, angle)
        return np.array([f(*y) for y in x])

    return function, [A(g.normal(size=(nk, nk, 2)), E), A(g.uniform(-9, 9, (3,
        2)))], E


@call()
def wigner(g):
    nk = tuple(map(int, g.integers(1, 4, 3)))
    at = np.eye(3) * 4 + g.normal(size=(3, 3)) * 0.3
    tau = g.uniform(0, 4, (2, 3))

    return lambda at, tau, tau2, eps: b.wigner(*nk, at, tau, tau2, eps), [A(at,
        L), A(tau, L), A(tau + 0.1, L), A(1e-7, L)], [ONE, ONE, L]


@call()
def short_range_model(g):
    nk = tuple(map(int, g.integers(1, 4, 3)))
    at = np.eye(3) * 4 + g.normal(size=(3, 3)) * 0.3
    tau = g.uniform(0, 4, (2, 3))
    data = gen.cplx(g, (2, 2, *nk, 3, 3)[:None if g.integers(2) else 5])
    divide = bool(g.integers(2))

    return lambda x, at, tau: b.short_range_model(x, at, tau,
        divide_ndegen=divide), [A(data, E), A(at, L), A(tau, L)], [ONE, E, L]


@call()
def path(g):
    points = g.uniform(-1, 1, (3, 3))
    bvec = np.eye(3) + g.normal(size=(3, 3)) * 0.2

    return lambda p, v: b.path(p, N=7, recvec=v)[:2], [A(points, lists=True), A(bvec)], ONE


@call()
def to_supercell(g):
    cells = [tuple(map(int, x)) for x in np.eye(3, dtype=int)
        * g.integers(1, 3, 3) + [[0, 1, 0], [0, 0, 0], [0, 0, 0]]]

    sc = b.supercell(*cells)

    def function(R):
        r, i = b.to_supercell(R, sc)
        return np.array(r), i

    return function, [A(g.integers(-9, 9, 3))], ONE


# --------------------------------------------------------------------------
# occupations

group_name = 'occupations'

@call()
def step(g):
    f = o.smearing(smear(g))

    def function(e, kT):
        x = e / kT
        return f(x), f.delta(x), f.delta_prime(x), f.entropy(x)

    names = 'fd gauss mv mp'.split()
    f = o.smearing(names[g.integers(4)])

    return function, [A(g.normal(size=(3, 4)), E), A(0.7, E)], ONE


@call()
def fermi_level(g):
    f = ['fd', 'gauss', 'mv'][g.integers(3)]
    e = energies(g, 3, 3, 2)
    n = g.uniform(0.2, 1.8)

    return lambda e, kT, eps: o.find_Fermi_level(2 * n, e, kT, f, None,
        1e-10, eps), [A(e, E), A(0.2, E), A(1e-10, E)], E


@call()
def fermi_level_simple(g):
    e = energies(g, 3, 3, 2)

    return lambda e, kT, damp: o.find_Fermi_level_simple(1.8, e, kT, 'fd',
        None, 1e-8, damp), [A(e, E), A(0.3, E), A(0.05, E)], E


# --------------------------------------------------------------------------
# diagrams

group_name = 'diagrams'

@call()
def susceptibility(g):
    nk = int(g.integers(1, 5))
    q = qpoints(g, nk, 4, 2)
    f = smear(g)

    def function(e, kT, eta):
        chi = d.susceptibility(e, kT, eta, f)
        return np.array([chi(*x) for x in q])

    return function, [A(energies(g, nk, nk), E), A(0.3, E), A(1e-10, E)], iE


@call()
def susceptibility2(g):
    nk = int(g.integers(1, 4))
    q = qpoints(g, nk, 4, 2)
    height = float(g.integers(2)) * 0.2

    def function(e, kT, width, height):
        chi = d.susceptibility2(e, kT, 20, width, height)
        return np.array([chi(*x) for x in q])

    return function, [A(energies(g, nk, nk), E), A(0.3, E), A(1.0, E),
        A(height, E)], iE


@call()
def polarization(g):
    nk = int(g.integers(1, 3))
    q = qpoints(g, nk, 3, 2)
    f = smear(g)
    sub = None if g.integers(2) else np.arange(nk * nk * 2).reshape((nk, nk,
        2)) % 3 == 0

    def function(e, U, kT, eps):
        Pi = d.polarization(e, U, kT, eps, sub, f)
        return np.array([Pi(*x) for x in q])

    return function, [A(energies(g, nk, nk, 2), E), A(unitary(g, nk, nk, 2)),
        A(0.3, E), A(1e-10, E)], iE


@call()
def phonon_self_energy(g):
    nk = int(g.integers(1, 3))
    q = qpoints(g, nk, 2, 2)
    f = smear(g)
    omega = 0.0 if g.integers(2) else 0.1 + 0.05j
    more = bool(g.integers(2))
    Delta = 0.5 if g.integers(2) else None
    diff = Delta is not None and bool(g.integers(2))
    shape = 2, 2, nk, nk, 2, 2

    def function(q, e, g2, kT, eps, omega, Delta, dT):
        return d.phonon_self_energy(q, e, g2, kT, eps, omega, f, more, Delta,
            diff, 'fd', dT)

    result = (-2 if diff else -1, 0, 2)

    return function, [A(q, lists=True), A(energies(g, nk, nk, 2), E), A(g.uniform(0, 1,
        shape), (0, 0, 2)), A(0.3, E), A(1e-10, E), A(omega, E), A(Delta, E),
        A(0.2, E)], result


@call()
def phonon_self_energy_matrix(g):
    nk = int(g.integers(1, 3))
    q = qpoints(g, nk, 2, 2)
    f = smear(g)
    omega = 0.0 if g.integers(2) else 0.1 + 0.05j
    shape = 2, 2, nk, nk, 2, 2
    kwargs = dict(symmetrize=bool(g.integers(2)), diagonal=bool(g.integers(2)),
        fluctuations=bool(g.integers(2)))
    G = gen.cplx(g, shape) if g.integers(2) else None

    def function(q, e, g_, G, kT, eps, omega):
        return d.phonon_self_energy(q, e, None, kT, eps, omega, f, g=g_, G=G,
            **kwargs)

    return function, [A(q, lists=True), A(energies(g, nk, nk, 2), E), A(gen.cplx(g, shape),
        C), A(G, C), A(0.3, E), A(1e-10, E), A(omega, E)], (-1, 0, 2)


@call()
def phonon_self_energy_contact(g):
    nk = int(g.integers(1, 3))
    q = qpoints(g, nk, 2, 2)
    shape = 2, 2, nk, nk, 2, 2

    def function(q, e, g_, kT, eps, U):
        return d.phonon_self_energy(q, e, None, kT, eps, g=g_, U=U)

    return function, [A(q, lists=True), A(energies(g, nk, nk, 2), E), A(gen.cplx(g, shape),
        C), A(0.3, E), A(1e-10, E), A(g.uniform(0, 0.2, (2, 2)), E)], (-1, 0, 2)


@call()
def phonon_self_energy2(g):
    nk = int(g.integers(1, 3))
    q = qpoints(g, nk, 2, 2)
    shape = 2, 2, nk, nk

    def function(q, e, g2, kT, width, height):
        return d.phonon_self_energy2(q, e, g2, kT, 20, width, height)

    return function, [A(q, lists=True), A(energies(g, nk, nk), E), A(g.uniform(0, 1,
        shape), (0, 0, 2)), A(0.3, E), A(1.0, E), A(0.2, E)], (-1, 0, 2)


@call()
def fermi_shift(g):
    nk = int(g.integers(1, 3))

    return d.phonon_self_energy_fermi_shift, [A(energies(g, nk, nk, 2), E),
        A(gen.cplx(g, (2, nk, nk, 2, 2)), C), A(0.3, E)], (-1, 0, 2)


@call()
def renormalize_coupling_band(g):
    nk = int(g.integers(1, 3))
    q = qpoints(g, nk, 2, 2)
    dd = bool(g.integers(2))

    def function(q, e, g_, W, U, kT, eps):
        return d.renormalize_coupling_band(q, e, g_, W, U, kT, eps,
            status=False)

    return function, [A(q, lists=True), A(energies(g, nk, nk, 2), E), A(gen.cplx(g, (2, 2,
        nk, nk, 2, 2)), C), A(gen.cplx(g, (2, 2, 2) if dd else (2, 2, 2, 2,
        2)), E), A(unitary(g, nk, nk, 2)), A(0.3, E), A(1e-10, E)], C


@call()
def renormalize_coupling_orbital(g):
    nk = int(g.integers(1, 3))
    q = qpoints(g, nk, 2, 2)
    dd = bool(g.integers(2))

    def function(q, e, g_, W, U, kT, eps):
        return d.renormalize_coupling_orbital(q, e, g_, W, U, kT=kT, eps=eps,
            status=False)

    return function, [A(q, lists=True), A(energies(g, nk, nk, 2), E), A(gen.cplx(g, (2, 2,
        nk, nk, 2, 2)), C), A(gen.cplx(g, (2, 2, 2) if dd else (2, 2, 2, 2,
        2)), E), A(unitary(g, nk, nk, 2)), A(0.3, E), A(1e-10, E)], C


@call()
def double_fermi_surface_average(g):
    nk = int(g.integers(1, 4))
    q = qpoints(g, nk, 2, 2)
    f = ['fd', 'gauss', 'lorentz'][g.integers(3)]

    return lambda q, e, g2, kT: d.double_fermi_surface_average(q, e, g2, kT,
        f), [A(q, lists=True), A(energies(g, nk, nk, 2), E), A(g.uniform(0, 1, (2, 2, nk,
        nk, 2, 2)), (0, 0, 2)), A(0.3, E)], [(-2, 0, 2), (-2, 0, 0)]


@call()
def grand_potential(g):
    f = ['fd', 'gauss', 'mv', 'mp'][g.integers(4)]

    return lambda e, kT: d.grand_potential(e, kT, f), [A(energies(g, 2, 3, 2),
        E), A(0.3, E)], E


@call()
def first_order(g):
    f = smear(g)
    with_U = bool(g.integers(2))

    return lambda e, g_, kT, U, eps: d.first_order(e, g_, kT, U if with_U else
        None, eps, f), [A(energies(g, 2, 3, 2), E), A(gen.cplx(g, (2, 2, 3, 2,
        2)), C), A(0.3, E), A(unitary(g, 2, 3, 2)), A(1e-10, E)], C


@call()
def triangle(g):
    nk = int(g.integers(1, 3))
    q, Q = qpoints(g, nk, 2, 2)
    f = smear(g)
    shape = nk, nk, 2, 2

    return lambda q, Q, e, gq, gQ, gqQ, kT, eps: d.triangle(q, Q, e, gq, gQ,
        gqQ, kT, eps, f), [A(q, lists=True), A(Q), A(energies(g, nk, nk, 2), E),
        A(gen.cplx(g, shape), C), A(gen.cplx(g, shape), C), A(gen.cplx(g,
        shape), C), A(0.3, E), A(1e-10, E)], (-2, 0, 3)


@call()
def fan_migdal_self_energy(g):
    nk = int(g.integers(1, 3))
    q = qpoints(g, nk, 2, 2)
    shape = nk, nk, 2, 2, 2, 2

    return d.fan_migdal_self_energy, [A(q, lists=True), A(energies(g, nk, nk, 2), E),
        A(g.uniform(0.1, 1, (nk, nk, 2)), E), A(g.uniform(0, 1, shape), (0, 0,
        2)), A(np.linspace(-1, 1, 5) + 0.1j, E), A(0.3, E)], (-1, 0, 2)


@call()
def green_kubo_conductivity(g):
    nk = 2
    omega = np.arange(-8, 9) / 8.0
    dc = bool(g.integers(2))

    return lambda v, A_, w, kT, eps: d.green_kubo_conductivity(v, A_, w, kT,
        eps, dc_only=dc), [A(g.normal(size=(nk, nk, 2, 2)), L), A(g.uniform(0,
        1, (nk, nk, 2, len(omega))), iE), A(omega, E), A(0.3, E), A(1e-10,
        E)], (-2, 2, 0)


# --------------------------------------------------------------------------
# densities of states, superconductivity

group_name = 'superconductivity'

@call()
def hexDOS(g):
    nk = int(g.integers(1, 4))

    def function(e, x):
        f = elphmod.dos.hexDOS(e)
        return np.array([f(y) for y in x])

    return function, [A(energies(g, nk, nk), E), A(g.uniform(-2, 2, 4), E)], iE


@call()
def hexa2F(g):
    nk = int(g.integers(1, 4))

    def function(e, c, x):
        f = elphmod.dos.hexa2F(e, c)
        return np.array([f(y) for y in x])

    return function, [A(energies(g, nk, nk), E), A(g.uniform(0, 1, (nk, nk)),
        C), A(g.uniform(-2, 2, 4), E)], (-1, 0, 1)


@call()
def double_delta(g):
    nk = int(g.integers(2, 4))

    def function(x, y, f, z):
        return sum(elphmod.dos.double_delta(x, y, f)(z).values())

    return function, [A(energies(g, nk, nk), E), A(energies(g, nk, nk), E),
        A(g.uniform(0, 1, (nk, nk)), C), A(g.uniform(-0.5, 0.5), E)], (-2, 0, 1)


@call()
def isoline(g):
    nk = int(g.integers(2, 5))

    def function(e, x):
        return [np.array(y) for y in elphmod.dos.isoline(e)(x)]

    return function, [A(energies(g, nk, nk), E), A(g.uniform(-1, 1), E)], ONE


@call()
def Tc(g):
    kwargs = dict(correct=True) if g.integers(2) else dict()

    return lambda lamda, w, w2: elphmod.eliashberg.Tc(lamda, w, 0.1, w2,
        **kwargs), [A(g.uniform(0.5, 3)), A(0.02, E), A(0.025, E)], E


@call()
def McMillan(g):
    nq = int(g.integers(1, 3))
    nk = nq * int(g.integers(1, 3))
    nQ = len(b.irreducibles(nq))
    tetra = bool(g.integers(2)) and nk > 1

    return lambda e, w2, g2, eps, kT: elphmod.eliashberg.McMillan(nq, e, w2,
        g2, eps, 0.1, tetra, kT)[:3], [A(energies(g, nk, nk, 2) - 0.0137, E),
        A(g.uniform(0.1, 1, (nQ, 2)), (2, 0, 0)), A(g.uniform(0.1, 1, (nQ, 2,
        nk, nk, 2, 2)), (3, 0, 0)), A(1e-10, (2, 0, 0)), A(0.3, E)], [ONE, E, E]


# --------------------------------------------------------------------------
# dispersions

group_name = 'dispersions'

@call(exact=False)
def dispersion(g):
    el = gen.el_model(g, 3, 4)
    order = bool(g.integers(2))

    def function(R, data, k):
        el.R = R
        el.data = data
        return elphmod.dispersion.dispersion(el.H, k, order=order)

    return function, [A(el.R), A(el.data, E), A(np.linspace(0, 1, 15)[:, None]
        * g.uniform(-3, 3, 3), lists=True)], E if not order else [E, ONE]


@call()
def sample(g):
    el = gen.el_model(g, 2, 4)

    def function(R, data, k):
        el.R = R
        el.data = data
        return elphmod.dispersion.sample(el.H, k), elphmod.dispersion.sample(
            el.v, k)

    return function, [A(el.R), A(el.data, E), A(g.uniform(-9, 9, (2, 3, 3)), lists=True)], E


@call()
def dispersion_full(g):
    el = gen.el_model(g, 2, 4, planar=True)
    nk = int(g.integers(1, 5))

    def function(R, data):
        el.R = R
        el.data = data
        return elphmod.dispersion.dispersion_full_nosym(el.H, nk)

    return function, [A(el.R), A(el.data, E)], E


@call()
def band_order(g):
    n = int(g.integers(2, 6))
    e = np.sort(g.normal(size=(n, 3)), axis=1)
    U = [unitary(g, 3)]
    for i in range(n - 1):
        U.append(np.linalg.qr(U[-1] + 0.1 * gen.cplx(g, (3, 3)))[0])

    by_mean = bool(g.integers(2))

    return lambda v, V, dv, eps: elphmod.dispersion.band_order(v, V, by_mean,
        dv, eps, False), [A(e, E), A(np.array(U)), A(0.5, E), A(1e-10, E)], ONE


@call()
def map_dispersions(g):
    V = unitary(g, 2, 3)

    return elphmod.dispersion.map_dispersions, [A(V), A(np.linalg.qr(V + 0.1
        * gen.cplx(g, V.shape))[0])], ONE


@call()
def unfolding_weights(g):
    k = g.uniform(-3, 3, (3, 3))
    R = g.integers(-1, 2, (2, 3))

    return elphmod.dispersion.unfolding_weights, [A(k, lists=True), A(R, lists=True), A(unitary(g, 3,
        2)), A(unitary(g, 3, 4))], ONE


# --------------------------------------------------------------------------
# models

group_name = 'models'

@call()
def k2r(g):
    nk = tuple(map(int, g.integers(1, 4, 3)))
    at = np.eye(3) * 4 + g.normal(size=(3, 3)) * 0.3
    r = g.uniform(0, 4, (2, 3))
    H = gen.cplx(g, (*nk, 2, 2))
    fft = bool(g.integers(2))

    def function(H, at, r):
        el = elphmod.el.Model()
        elphmod.el.k2r(el, H, at, r, fft=fft)
        return el.R, el.data

    return function, [A(H, E), A(at, L), A(r, L)], [ONE, E]


@call()
def W2r(g):
    nk = tuple(map(int, g.integers(1, 4, 3)))
    at = np.eye(3) * 4 + g.normal(size=(3, 3)) * 0.3
    r = g.uniform(0, 4, (2, 3))
    W = gen.cplx(g, (*nk, 2, 2))
    fft = bool(g.integers(2))

    def function(W, at, r):
        elel = elphmod.elel.Model()
        elphmod.elel.q2r(elel, W, at, r, fft=fft)
        return elel.R, elel.data

    return function, [A(W, E), A(at, L), A(r, L)], [ONE, E]


@call()
def ph_q2r(g):
    nq = tuple(map(int, g.integers(1, 4, 3)))
    at = np.eye(3) * 4 + g.normal(size=(3, 3)) * 0.3
    r = g.uniform(0, 4, (2, 3))
    M = g.uniform(1e3, 2e3, 2)
    full = np.empty((*nq, 6, 6), dtype=complex)
    base = gen.ph_model(g, at, 2, 4)

    for i in np.ndindex(*nq):
        full[i] = base.D(*[2 * np.pi * x / n for x, n in zip(i, nq)])

    how = dict(apply_asr=bool(g.integers(2)), apply_asr_simple=bool(
        g.integers(2)))

    def function(M, at, r, D):
        ph = elphmod.ph.Model(amass=M, at=at, tau=r, atom_order=['X', 'S'])
        elphmod.ph.q2r(ph, nq=nq, D_full=D, **how)
        return ph.R, ph.data, ph.M.copy(), ph.a.copy(), ph.r.copy()

    return function, [A(M), A(at, L), A(r, L), A(full, E)], [ONE, E, ONE, L, L]


@call()
def g_transform(g):
    ph = gen.ph_model(g, np.diag([4.0, 5.0, 6.0]), 1, 4)
    el = gen.el_model(g, 2, 4)
    elph = gen.elph_model(g, el, ph, 3, 3, box=1)
    nk = tuple(map(int, g.integers(1, 3, 3)))
    q = 2 * np.pi / np.array(nk) * g.integers(0, 2, (2, 3))
    squared = bool(g.integers(2))
    U = unitary(g, *nk, 2)
    u = unitary(g, 2, 3)

    def function(q, data, U, u):
        elph.data = data
        elph.q = None # data changed
        return elphmod.elph.sample(elph.g, q, nk, U, u, squared=squared)

    return function, [A(q, lists=True), A(elph.data, C), A(U), A(u)], (0, 0, 1 + squared)


@call()
def g_mesh(g):
    n = int(g.integers(1, 4))
    nk = n, n
    q = 2 * np.pi / n * g.integers(0, n, (2, 2))
    squared = bool(g.integers(2))
    data = gen.cplx(g, (2, 3, *nk, 2, 2))
    U = unitary(g, *nk, 2)
    u = unitary(g, 2, 3)

    return lambda x, q, U, u: elphmod.elph.transform(x, q, n, U, u,
        squared=squared), [A(data, C), A(q, lists=True), A(U), A(u)], (0, 0, 1 + squared)


@call()
def elph_q2r(g):
    ph = gen.ph_model(g, np.diag([4.0, 5.0, 6.0]), 1, 4)
    el = gen.el_model(g, 2, 4)
    nq = tuple(map(int, g.integers(1, 3, 3)))
    r = g.uniform(0, 4, (2, 3))
    data = gen.cplx(g, (*nq, 3, *nq, 2, 2))

    def function(data, r):
        elph = elphmod.elph.Model(el=el, ph=ph)
        elphmod.elph.q2r(elph, nq, nq, data, r)
        return elph.Rg, elph.Rk, elph.data

    return function, [A(data, C), A(r)], [ONE, ONE, C]


@call()
def evaluate(g):
    ph = gen.ph_model(g, np.diag([4.0, 5.0, 6.0]), 2, 4)
    el = gen.el_model(g, 2, 4)
    elph = gen.elph_model(g, el, ph, 3, 3, box=1)
    elel = gen.elel_model(g, 2, 3)
    q, k = g.uniform(-9, 9, (2, 3))
    elbnd = bool(g.integers(2))

    def function(R, data, Rg, Rk, dg, H, W):
        el.R = ph.R = elel.R = R
        ph.data, el.data, elel.data, elph.data = data, H, W, dg
        elph.q = None # data changed
        elph.Rg, elph.Rk = Rg, Rk
        return (ph.D(*q), el.H(*k), el.v(*k), elel.W(*q), elph.g(*q, *k),
            abs(elph.g(*q, *k, elbnd=elbnd)))

    n = len(el.R)

    return function, [A(el.R), A(g.normal(size=(n, 6, 6)), (2, 0, 0)), A(
        elph.Rg), A(elph.Rk), A(elph.data, C), A(el.data, E), A(gen.cplx(g, (n,
        2, 2)), E)], [(2, 0, 0), E, E, E, C, C]


@call(exact=False)
def supercells(g):
    ph = gen.ph_model(g, np.diag([4.0, 5.0, 6.0]), 2, 4)
    el = gen.el_model(g, 2, 4)
    elph = gen.elph_model(g, el, ph, 3, 3, box=1)
    N = tuple(map(int, g.integers(1, 3, 3)))

    def function(R, data, Rg, Rk, dg, H, M, a, r):
        el.R = ph.R = R
        ph.data, el.data, elph.data = data, H, dg
        elph.Rg, elph.Rk = Rg, Rk
        ph.M, ph.a, ph.r = M, a, r
        new = elph.supercell(*N)
        return (new.el.R, new.ph.R, new.Rg, new.Rk, new.el.data, new.ph.data,
            new.data, new.ph.a, new.ph.r, new.ph.M)

    n = len(el.R)

    return function, [A(el.R), A(g.normal(size=(n, 6, 6)), (2, 0, 0)),
        A(elph.Rg), A(elph.Rk), A(elph.data, C), A(el.data, E), A(ph.M), A(ph.a,
        L), A(ph.r, L)], [ONE, ONE, ONE, ONE, E, (2, 0, 0), C, L, L, ONE]


@call(exact=False)
def long_range(g):
    nat = 2
    at = np.eye(3) * 5 + g.normal(size=(3, 3)) * 0.3
    r = gen.positions(g, nat, at)
    M = g.uniform(1e3, 2e3, nat)
    Z = g.uniform(-2, 2, (nat, 3, 3))
    Z -= Z.mean(axis=0)
    eps = np.diag(g.uniform(2, 4, 3))
    Q = g.uniform(-2, 2, (nat, 3, 3, 3)) if g.integers(2) else None
    q = g.uniform(-1, 1, (2, 3))

    def function(M, at, r, Z, eps, Q):
        ph = elphmod.ph.Model(amass=M, at=at, tau=r, atom_order=['X', 'S'],
            epsil=eps, zeu=Z, Q=Q, lr=True)
        return [ph.D_lr(*x) for x in q]

    return function, [A(M), A(at, L), A(r, L), A(Z), A(eps), A(Q, L)], (0, -3,
        0)


@call()
def spectral_function(g):
    X = g.normal(size=(2, 2, 5)) + 1j * g.normal(size=(2, 2, 5))
    omega = np.linspace(0.1, 2, 5)

    return elphmod.ph.spectral_function, [A(X, (2, 0, 0)), A(omega, E), A(0.05,
        E)], iE


@call()
def sgnsqrt(g):
    return elphmod.ph.sgnsqrt, [A(g.normal(size=(3, 4)), (2, 0, 0))], E


@call()
def mode_polarization(g):
    e = unitary(g, 4, 3)

    return elphmod.ph.polarization, [A(e), A(g.uniform(-3, 3, (4, 2)))], ONE


@call()
def orbital2band(g):
    el = gen.el_model(g, 2, 4, planar=True)
    nq = int(g.integers(1, 3))

    def function(U):
        return abs(elphmod.elel.orbital2band(U, el.H, nq, nq, share=True))

    return function, [A(gen.cplx(g, (nq, nq, 2, 2, 2, 2)), E)], E


@call()
def hartree_energy(g):
    G = np.concatenate(([[0, 0, 0]], g.uniform(1, 3, (5, 3))))

    return lambda rho, G, V, a: elphmod.elel.hartree_energy(rho, G, 6, V, a), [
        A(gen.cplx(g, 6), (0, -3, 0)), A(G), A(100.0, (0, 3, 0)), A(7.0, L)], (
        0, -1, 0)


@call()
def standardize(g):
    ph = gen.ph_model(g, np.diag([4.0, 5.0, 6.0]), 1, 4)
    el = gen.el_model(g, 2, 4)
    elel = gen.elel_model(g, 2, 3)
    symmetrize = bool(g.integers(2))
    eps = float(g.choice([0.0, 0.3]))

    def function(R, P, H, W):
        el.R = ph.R = elel.R = R
        ph.data, el.data, elel.data = P, H, W
        el.standardize(eps, symmetrize)
        ph.standardize(eps, symmetrize)
        elel.standardize(eps)
        return el.R, el.data, ph.R, ph.data, elel.R, elel.data

    n = len(el.R)

    return function, [A(el.R), A(g.normal(size=(n, 3, 3)), (2, 0, 0)),
        A(el.data, E), A(gen.cplx(g, (n, 2, 2)), E)], [ONE, E, ONE, (2, 0, 0),
        ONE, E]


@call()
def basis_changes(g):
    ph = gen.ph_model(g, np.diag([4.0, 5.0, 6.0]), 2, 4)
    el = gen.el_model(g, 2, 4)
    S = tuple(map(int, g.integers(-2, 3, 3)))

    def function(R, P, H, M, a, r):
        el.R = ph.R = R
        ph.data, el.data = P, H
        ph.M, ph.a, ph.r = M, a, r
        ph.atom_order = ['X', 'S']
        el.order_orbitals(1, 0)
        ph.order_atoms(1, 0)
        el.shift_orbitals(slice(0, 1), S)
        ph.shift_atoms(slice(0, 1), S)
        distances, constants = ph.decay()
        return (el.R, el.data, ph.R, ph.data, ph.M.copy(), ph.a.copy(),
            ph.r.copy(), np.sort(distances))

    n = len(el.R)

    return function, [A(el.R), A(g.normal(size=(n, 6, 6)), (2, 0, 0)),
        A(el.data, E), A(ph.M), A(ph.a, L), A(ph.r, L)], [ONE, E, ONE, (2, 0,
        0), ONE, L, L, L]


@call()
def sum_rules(g):
    nat = int(g.integers(1, 3))
    ph0 = gen.ph_model(g, np.diag([4.0, 5.0, 6.0]), nat, 3, symmetric=True,
        divide_mass=False)
    phid = g.normal(size=(nat, nat, 2, 1, 2, 3, 3))
    zeu = g.normal(size=(nat, 3, 3))

    def function(P, M, a, r, phid, Z):
        ph = elphmod.ph.Model(amass=M, at=a, tau=r, atom_order=['X', 'S'][:nat],
            divide_mass=False, zeu=Z, apply_zasr=True, epsil=np.eye(3),
            lr=False)
        ph.R, ph.data = ph0.R.copy(), np.array(1.0 * P, order='C') # in place
        elphmod.ph.sum_rule_correction(ph, asr=True, rsr=False, report=False)
        phid = np.array(1.0 * phid, order='C')
        elphmod.ph.asr(phid)
        return ph.data, phid, ph.Z

    return function, [A(ph0.data, E), A(ph0.M), A(ph0.a, L), A(ph0.r, L),
        A(phid, E), A(zeu)], [E, E, ONE]


@call()
def divide_by_mass(g):
    def function(x, M):
        y = x[::-1, ::-1].copy()[::-1, ::-1] # modified in place
        elphmod.ph.divide_by_mass(y, M)
        return y

    return function, [A(gen.cplx(g, (6, 6)), E), A(g.uniform(1, 5, 2))], E


@call(exact=False, scale=-5) # absolute tolerances of solver
def simulation(g):
    """Forces and Hessian: common factor of all energies."""

    nat = 2
    el = gen.el_model(g, 2, 3, rydberg=True, box=1)
    ph = gen.ph_model(g, np.diag([4.0, 5.0, 6.0]), nat, 3, divide_mass=False,
        box=1)
    ph.data /= 1e3
    elph = gen.elph_model(g, el, ph, 3, 3, hermitian=True, box=1,
        divide_mass=False)
    nk = int(g.integers(1, 3))
    f = ['fd', 'gauss', 'mv'][g.integers(3)]

    u = 0.1 * g.normal(size=(nat, 3))
    u -= u.mean(axis=0)

    def function(u, R, H, P, Rg, Rk, data, kT):
        el.R = ph.R = R
        el.data, ph.data, elph.data = H, P, data
        elph.q = None # data changed
        elph.Rg, elph.Rk = Rg, Rk

        driver = elphmod.md.Driver(elph, kT=kT, f=f, n=1.7, nk=(nk, nk, 1),
            nq=(nk, nk, 1))

        x = u.ravel()

        return (driver.free_energy(x, show=False), driver.jacobian(x,
            show=False), driver.hessian(x))

    R = el.R
    P = 1e-3 * g.normal(size=(len(R), 6, 6))

    return function, [A(u), A(R), A(el.data, E), A(P, E), A(elph.Rg), A(
        elph.Rk), A(elph.data, E), A(0.3, E)], E


# --------------------------------------------------------------------------
# tools

group_name = 'tools'

@call()
def group(g):
    def function(x, eps):
        return [np.array(y) for y in elphmod.misc.group(x, eps)]

    return function, [A(g.integers(0, 3, (6, 2)) * 1.0, L), A(1e-3, L)], ONE


@call()
def differential(g):
    return elphmod.misc.differential, [A(np.sort(g.normal(size=g.integers(2,
        7))), E)], E


@call()
def minimum(g):
    x0, p = g.normal(size=2)

    def function(x, y):
        return elphmod.misc.minimum(*x, *y)

    x = x0 + np.array([-1.0, 0.2, 1.5])

    return function, [A(x, L), A(p + (x - x0) ** 2, E)], L


@call()
def vector_index(g):
    R = np.array(list(np.ndindex(2, 3, 2)))
    i = g.integers(len(R))

    return elphmod.misc.vector_index, [A(R), A(R[i].copy())], ONE


@call()
def real_space_grid(g):
    return lambda r0, a: elphmod.misc.real_space_grid((2, 3, 2), r0, a), [
        A(g.normal(size=3), L), A(g.normal(size=(3, 3)), L)], L


# --------------------------------------------------------------------------
# figures

group_name = 'figures'

@call()
def plot(g):
    nk = int(g.integers(1, 5))

    return lambda x: elphmod.plot.plot(x, resolution=9), [A(g.normal(size=(nk,
        nk)), E)], E


@call()
def double_plot(g):
    nk = 2
    q = [(0, 0), (0, 1)]

    return lambda x: elphmod.plot.double_plot(x, q, 2, resolution=20), [
        A(g.normal(size=(2, nk, nk)), E)], E


@call()
def toBZ(g):
    nk = int(g.integers(1, 5))

    return lambda x, out: elphmod.plot.toBZ(x, points=20, outside=out), [
        A(g.normal(size=(nk, nk)), E), A(-3.0, E)], E


@call()
def color(g):
    data = g.uniform(0, 1, (4, 5))

    import storylines

    cmap = storylines.colormap((0.0, storylines.Color(0, 10, 20)), (1.0,
        storylines.Color(255, 100, 20)))

    return lambda x, lo, hi: elphmod.plot.color(x, cmap, lo, hi), [A(data, E, True),
        A(0.125, E), A(0.75, E)], ONE


@call()
def rectify(g):
    return lambda x: elphmod.plot.rectify(x, 1.0, 1.0, (0.1, 0.9), (0.9, 1.0),
        (0.0, 0.1), (1.0, 0.0)), [A(g.normal(size=(5, 6)), E)], E


@call()
def adjust_pixels(g):
    return lambda x: elphmod.plot.adjust_pixels(x, [0, 3, 5], [0.0, 1.7, 2.0],
        11), [A(g.normal(size=(2, 6, 3)), E)], E


@call()
def arrange(g):
    n = int(g.integers(1, 5))

    return lambda x: elphmod.plot.arrange(list(x)), [A(g.normal(size=(n, 3, 2)),
        E)], E


@call()
def compline(g):
    x = np.sort(g.uniform(0, 5, 6))
    center = bool(g.integers(2))

    def function(x, y, w):
        return elphmod.plot.compline(x, y, w, center)

    return function, [A(x), A(g.normal(size=6), E), A(g.uniform(0, 1, (6, 2)),
        E)], None


# --------------------------------------------------------------------------

def pack(result):
    """Flatten results to list of arrays."""

    if isinstance(result, (tuple, list)) and not all(np.isscalar(x) for x in
            result):
        return [y for x in result for y in pack(x)]

    if isinstance(result, dict):
        return [y for k in sorted(result) for y in pack(result[k])]

    if isinstance(result, (set, frozenset)):
        return pack(sorted(result))

    return [np.array(result)]
