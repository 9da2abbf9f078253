"""S17: Forces and force constants are derivatives of the free energy."""

import copy
import itertools
import os
import shutil
import tempfile

import numpy as np
import scipy.optimize

import elphmod

from vp import gen
from vp.harness import (Property, check, close, equal, rng, seeds, st, ints,
    raises, HarnessError)
from vp.refs import Smearing

P = Property('S17',
    'Random short-range electron, phonon, and coupling models (1-3 orbitals, '
    '1-3 atoms), meshes and supercells, fillings, temperatures, smearing '
    'functions, displacements and histories of driver calls. Non-trivial: '
    'finite displacement and density of states at the Fermi level above '
    '0.05.',
    ['The driver determines the number of electrons with a tolerance of 1e-5 '
        'per cell, which limits the accuracy of forces.',
        'The sum of all displacements is zero (the driver removes it).'])

kinds = ['fd', 'gauss', 'mp', 'mv', 'double']
monotonic = ['fd', 'gauss', 'double']
kTs = st.sampled_from([0.1, 0.3, 1.0])
TOL = 3e-4


def models(g, nel, nat, at=None, real=False, nRg=3, nRk=3, nR=3, stable=False,
        lr=False, box=1, coupling=0.5, planar=False):

    if at is None:
        at = [[5.0, 0.0, 0.0], [-1.0, 6.0, 0.0], [0.0, 1.0, 7.0]]

    el = gen.el_model(g, nel, nR, real=real, rydberg=True, box=box,
        planar=planar)

    ph = gen.ph_model(g, at, nat, nR, lr=lr, divide_mass=False, box=box,
        planar=planar, common=True)
    ph.data /= 1e3

    if stable:
        zero = np.flatnonzero(np.all(ph.R == 0, axis=1))[0]
        ph.data[zero] += (2 * abs(ph.data).sum(axis=(0, 2)).max()
            * np.eye(ph.size))

    elph = gen.elph_model(g, el, ph, nRg, nRk, hermitian=True, real=real,
        box=box, divide_mass=False, planar=planar)
    elph.data *= coupling / 3

    return el, ph, elph


class Reference:
    """Independent free energy and gradient of electrons."""

    def __init__(self, elph, nk, n, kT, name, d=2.0):
        nk = tuple(nk) + (1,) * (3 - len(nk))

        self.n = n
        self.kT = kT
        self.s = Smearing(name, d)

        ks = [2 * np.pi * np.array(i) / nk for i in np.ndindex(*nk)]

        self.weight = 2 / len(ks)
        self.H0 = np.array([self.fourier(elph.el.data, elph.el.R, k)
            for k in ks])
        self.d0 = np.array([[self.fourier(elph.data[:, x].sum(axis=0), elph.Rk,
            k) for k in ks] for x in range(elph.ph.size)])

        if elph.ph.lr: # including long-range coupling
            self.d0 = np.array([elph.g(0, 0, 0, *k) for k in ks]).swapaxes(0, 1)

    def fourier(self, data, R, k):
        return np.einsum('R,Rab->ab', np.exp(1j * R.dot(k)), data)

    def diagonalize(self, u, mu):
        e, U = np.linalg.eigh(self.H0 + np.einsum('x,xkab->kab', u, self.d0))

        for i in range(100):
            x = (e - mu) / self.kT
            N = self.weight * self.s.f(x).sum()
            D = -self.weight * self.s.df(x).sum() / self.kT
            step = (self.n - N) / D
            mu += np.clip(step, -self.kT, self.kT)

            if abs(step) < 1e-13 * max(1.0, abs(mu)):
                return e, U, mu, D

        return e, U, mu, 0.0

    def energy(self, u, mu):
        e, U, mu, D = self.diagonalize(u, mu)

        return (self.weight * self.kT * self.s.w((e - mu) / self.kT).sum()
            + mu * self.n)

    def rho(self, u, mu):
        e, U, mu, D = self.diagonalize(u, mu)

        f = self.weight * self.s.f((e - mu) / self.kT)

        return np.einsum('kan,kn,kbn->kab', U, f, U.conj())

    def gradient(self, u, mu):
        return np.einsum('xkab,kba->x', self.d0, self.rho(u, mu)).real

    def hessian(self, u, mu, h=2e-3):
        H = []

        for x in range(len(u)):
            v = np.zeros(len(u))
            v[x] = h

            H.append((8 * (self.gradient(u + v, mu) - self.gradient(u - v, mu))
                - (self.gradient(u + 2 * v, mu) - self.gradient(u - 2 * v, mu))
                ) / (12 * h))

        H = np.array(H)

        return (H + H.T) / 2


class Total:
    """Independent total free energy including ions."""

    def __init__(self, elph, nk, n, kT, name, mu0, unscreen, d=2.0):
        self.el = Reference(elph, nk, n, kT, name, d)
        self.D = elph.ph.D().real

        zero = np.zeros(elph.ph.size)

        if unscreen:
            self.D = self.D - self.el.hessian(zero, mu0)

        self.F0 = -self.el.gradient(zero, mu0)

    def energy(self, u, mu):
        return (self.el.energy(u, mu) + u.dot(self.D).dot(u) / 2
            + self.F0.dot(u))

    def gradient(self, u, mu):
        return self.el.gradient(u, mu) + self.D.dot(u) + self.F0

    def hessian(self, u, mu):
        return self.el.hessian(u, mu) + self.D

    def safe(self, u, mu):
        """Is the chemical potential well-defined?"""

        e, U, m, D = self.el.diagonalize(u, mu)

        if D < 0.05 or abs(m - mu) > 1e-3:
            return False

        return True


def centered(g, nat, amplitude):
    u = g.uniform(-amplitude, amplitude, (nat, 3))

    return (u - u.mean(axis=0)).ravel()


def fingerprint(*objects):
    return [{key: copy.deepcopy(value) for key, value in vars(x).items()
        if isinstance(value, (np.ndarray, int, float, str, list, tuple))}
        for x in objects]


def unchanged(old, *objects):
    for a, x in zip(old, objects):
        for key, value in a.items():
            if key in ('gq', 'q'):
                continue

            if isinstance(value, np.ndarray):
                equal(getattr(x, key), value, 'model modified: %s' % key)
            elif isinstance(value, (int, float, str)):
                equal(getattr(x, key), value, 'model modified: %s' % key)


@P.sub('derivatives', quick=410, seed=seeds, nel=st.integers(1, 3),
    nat=st.integers(2, 3), nk=st.lists(st.integers(1, 3), min_size=1,
    max_size=3), filling=st.sampled_from([0.1, 0.3, 0.5, 0.8]), kT=kTs,
    name=st.sampled_from(kinds), unscreen=st.booleans(),
    amplitude=st.sampled_from([0.02, 0.2]), string=st.booleans(),
    lr=st.booleans())
def derivatives(c):
    g = rng(c.seed)
    el, ph, elph = models(g, c.nel, c.nat, lr=c.lr)
    n = 2 * c.nel * c.filling

    f = Smearing(c.name, 2.0).setup()

    if c.string and c.name != 'double':
        f = c.name

    old = fingerprint(el, ph, elph)

    driver = elphmod.md.Driver(elph, kT=c.kT, f=f, n=n, nk=tuple(c.nk),
        unscreen=c.unscreen)

    unchanged(old, el, ph, elph)
    equal(driver.u, np.zeros(ph.size), 'initial displacement')

    mu0 = driver.mu
    total = Total(elph, c.nk, n, c.kT, c.name, mu0, c.unscreen)
    zero = np.zeros(ph.size)

    if not total.safe(zero, mu0):
        return False

    close(driver.jacobian(show=False), zero, 'forces at equilibrium')

    if c.unscreen:
        close(driver.hessian(), ph.D().real, 'initial Hessian')

    u = centered(g, c.nat, c.amplitude)
    arg = u.copy()

    E = driver.free_energy(arg, show=False)

    equal(arg, u, 'argument modified')

    # number of electrons, also if Fermi level is not well-defined:

    N = total.el.weight * total.el.s.f(driver.e / c.kT).sum()
    close(N, n, 'number of electrons', tol=3e-5 * c.nel)

    if not total.safe(u, driver.mu):
        return False

    close(driver.u, u, 'displacement', tol=1e-12)
    close(E, total.energy(u, driver.mu), 'free energy', tol=5e-5)

    F = driver.jacobian(show=False)

    close(F, total.gradient(u, driver.mu), 'forces', tol=TOL)

    # independent of above gradient:

    w = centered(g, c.nat, 1.0)
    h = 2e-3

    one = (8 * (total.energy(u + h * w, driver.mu)
        - total.energy(u - h * w, driver.mu))
        - (total.energy(u + 2 * h * w, driver.mu)
        - total.energy(u - 2 * h * w, driver.mu))) / (12 * h)

    # (error of number of electrons times coupling)

    close(F.dot(w), one, 'derivative of energy', tol=5 * TOL
        * max(1.0, abs(total.el.d0).max(), abs(F).max()))

    C = driver.hessian()

    close(C, total.hessian(u, driver.mu), 'Hessian', tol=3 * TOL)
    close(driver.hessian(gamma_only=False)[0], C, 'Hessian for all q')

    close(driver.jacobian(show=False), F, 'forces after Hessian')
    equal(driver.free_energy(show=False) - E < 1e-5, True, 'energy again')

    # density:

    rho = driver.density()
    close(rho.sum(), n, 'density', tol=3e-5 * c.nel)
    close(rho, np.einsum('kaa->a', total.el.rho(u, driver.mu)).real,
        'orbital density', tol=TOL)

    # coupling matrix:

    return True


@P.sub('history', quick=390, seed=seeds, nel=st.integers(1, 2),
    nat=st.integers(2, 2), nk=st.lists(st.integers(1, 2), min_size=1,
    max_size=3), filling=st.sampled_from([0.3, 0.5, 0.8]), kT=kTs,
    name=st.sampled_from(monotonic), sparse=st.booleans(),
    ops=st.lists(st.sampled_from(['set', 'call', 'random', 'jacobian',
    'hessian', 'fermi', 'electrons', 'phonons', 'density', 'ipi', 'translate',
    'other', 'readonly', 'hessian_all']), max_size=8))
def history(c):
    """Results depend on the present displacement only."""

    g = rng(c.seed)
    np.random.seed(c.seed % 2 ** 32)

    el, ph, elph = models(g, c.nel, c.nat, real=c.sparse)
    n = 2 * c.nel * c.filling
    nk = tuple(c.nk)
    f = Smearing(c.name, 2.0).setup()

    if c.sparse:
        elph = elph.supercell(2, sparse=True)
        n *= 2
        nk = (1,)

    options = dict(kT=c.kT, f=f, n=n, nk=nk)

    one = elphmod.md.Driver(elph, **options)
    two = elphmod.md.Driver(elph, **options)

    nat = elph.ph.nat
    used = False

    for op in c.ops:
        if op == 'set':
            one.u[:] = centered(g, nat, 0.2)
            one.diagonalize()
        elif op == 'call':
            one.free_energy(centered(g, nat, 0.3), show=False)
        elif op == 'random':
            one.random_displacements(0.1)
            close(one.u.reshape((-1, 3)).mean(axis=0), np.zeros(3),
                'center of mass')
            check(abs(one.u).max() <= 0.2, 'amplitude')
            one.diagonalize()
        elif op == 'jacobian':
            one.jacobian(show=False)
        elif op == 'hessian':
            one.hessian()
        elif op == 'hessian_all':
            one.hessian(gamma_only=False, apply_asr_simple=True)
        elif op == 'fermi':
            one.diagonalize()
            mu = one.mu
            one.e = one.e + mu
            close(one.find_Fermi_level(), mu, 'Fermi level', tol=1e-3)
            one.e = one.e - one.mu
        elif op == 'electrons':
            one.electrons()
        elif op == 'phonons':
            one.phonons()
        elif op == 'density':
            one.density()
        elif op == 'ipi':
            one(elph.ph.a, elph.ph.r + centered(g, nat, 0.2).reshape((-1, 3)))
        elif op == 'translate':
            one.u += np.tile(g.uniform(-1, 1, 3), nat)
            one.diagonalize()
        elif op == 'other':
            # another driver for the same model:
            elphmod.md.Driver(elph, **options).free_energy(centered(g, nat,
                0.3), show=False)
        elif op == 'readonly':
            u = centered(g, nat, 0.2)
            u.flags.writeable = False
            one.free_energy(u, show=False)

        used = True

    u = centered(g, nat, 0.2)
    E1 = one.free_energy(u.copy(), show=False)

    x = elphmod.md.Driver(elph, **options)
    E2 = x.free_energy(u.copy(), show=False)
    E3 = two.free_energy(u.copy(), show=False)

    close(E1, E2, 'energy (fresh driver)', tol=5e-5)
    close(E3, E2, 'energy (idle driver)', tol=5e-5)

    weight = 2 / np.prod(x.nk)
    dos = weight * f.delta(x.e / c.kT).sum() / c.kT

    if dos < 0.05:
        return False

    close(one.mu, x.mu, 'chemical potential', tol=1e-3)
    close(one.jacobian(show=False), x.jacobian(show=False), 'forces', tol=TOL)
    close(one.hessian(), x.hessian(), 'Hessian', tol=3 * TOL)
    close(one.density(), x.density(), 'density', tol=TOL)

    return used


def tiled(g, nat, cells, amplitude):
    return np.tile(centered(g, nat, amplitude), cells)


@P.sub('equivalent', quick=120, seed=seeds, nel=st.integers(1, 3),
    nat=st.integers(1, 2), N=st.sampled_from([[2], [3], [1, 2], [2, 2],
    [1, 1, 3], [2, 1, 2]]), filling=st.sampled_from([0.3, 0.5, 0.8]), kT=kTs,
    name=st.sampled_from(monotonic), unscreen=st.booleans(),
    option=st.booleans(), stable=st.booleans(),
    other=st.sampled_from([None, 0.6, 1.7]), cut=st.booleans())
def equivalent(c):
    """Dense, sparse, and k-mesh calculations agree."""

    g = rng(c.seed)
    nat = c.nat + 1
    el, ph, elph = models(g, c.nel, nat, real=True, stable=c.stable)
    f = Smearing(c.name, 2.0).setup()
    n = 2 * c.nel * c.filling

    N = tuple(c.N) + (1,) * (3 - len(c.N))
    cells = int(np.prod(N))

    options = dict(kT=c.kT, f=f, unscreen=c.unscreen)

    mesh = elphmod.md.Driver(elph, n=n, nk=N, nq=N, **options)

    dense_elph = elph.supercell(*N)
    dense = elphmod.md.Driver(dense_elph, n=n * cells, **options)

    if c.option:
        old = fingerprint(el, ph, elph)
        sparse = elphmod.md.Driver(elph, n=n, nk=N, nq=N, supercell=N,
            **options)
        unchanged(old, el, ph, elph)
    else:
        sparse_elph = elph.supercell(*N, sparse=True)
        sparse = elphmod.md.Driver(sparse_elph, n=n * cells, **options)

    check(sparse.sparse and not dense.sparse and not mesh.sparse, 'sparse')

    def dos(driver):
        return (2 / np.prod(driver.nk) * f.delta(driver.e / c.kT).sum() / c.kT)

    # the same displacement in all cells:

    u = centered(g, nat, 0.2)

    E = mesh.free_energy(u.copy(), show=False)
    E1 = dense.free_energy(np.tile(u, cells), show=False)
    E2 = sparse.free_energy(np.tile(u, cells), show=False)

    close(E1 / cells, E, 'energy (dense)', tol=5e-5)
    close(E2 / cells, E, 'energy (sparse)', tol=5e-5)

    if dos(mesh) < 0.05 or abs(mesh.mu - dense.mu) > 1e-3 \
            or abs(mesh.mu - sparse.mu) > 1e-3:
        return False

    F = mesh.jacobian(show=False)

    close(dense.jacobian(show=False), np.tile(F, cells), 'forces (dense)',
        tol=TOL)
    close(sparse.jacobian(show=False), np.tile(F, cells), 'forces (sparse)',
        tol=TOL)

    # Hessian of supercell from all q points:

    Cq = mesh.hessian(gamma_only=False)

    equal(Cq.shape, (cells, 3 * nat, 3 * nat), 'shape of Hessian')

    R = np.array(dense_elph.cells)
    C = np.zeros((cells, 3 * nat, cells, 3 * nat), dtype=complex)

    for i in range(cells):
        for j in range(cells):
            for q, D in zip(mesh.q, Cq):
                C[i, :, j] += D * np.exp(1j * q.dot(R[i] - R[j])) / cells

    C = C.reshape((3 * nat * cells,) * 2)

    close(C.imag, np.zeros(C.shape), 'imaginary part', tol=3 * TOL)
    close(dense.hessian(), C.real, 'Hessian (dense)', tol=3 * TOL)

    C2 = sparse.hessian()
    close(C2, C.real, 'Hessian (sparse)', tol=3 * TOL)
    close(sparse.hessian(gamma_only=False), C2[np.newaxis], 'shape')

    # acoustic sum rule:

    for driver in mesh, dense, sparse:
        A = driver.hessian(apply_asr_simple=True)
        B = driver.hessian()
        B = B.reshape((len(B) // 3, 3) * 2)
        B2 = B.copy()

        for a in range(len(B)):
            B2[a, :, a] -= B[a].sum(axis=1)

        close(A.reshape(B2.shape), B2, 'sum rule')

    A = dense.hessian(apply_asr_simple=True)
    Cq = mesh.hessian(gamma_only=False, apply_asr_simple=True)
    C1 = np.zeros((cells, 3 * nat, cells, 3 * nat), dtype=complex)

    for i in range(cells):
        for j in range(cells):
            for q, D in zip(mesh.q, Cq):
                C1[i, :, j] += D * np.exp(1j * q.dot(R[i] - R[j])) / cells

    close(C1.reshape(A.shape), A, 'sum rule at all q', tol=3 * TOL)

    # density:

    rho = mesh.density()
    close(dense.density(), np.tile(rho, cells), 'density (dense)', tol=TOL)
    close(sparse.density(), np.tile(rho, cells), 'density (sparse)', tol=TOL)

    basis = [[] for na in range(nat)]

    for no in range(c.nel):
        basis[g.integers(nat) if c.stable else no % nat].append(no)

    atoms = np.array([sum([rho[no] for no in x]) for x in basis])

    for driver, m in (mesh, 1), (dense, cells), (sparse, cells):
        driver.basis = basis
        close(driver.density_per_atom(), np.tile(atoms, m), 'atomic density',
            tol=TOL)

    # double Fermi-surface average:

    kT = c.kT * (c.other or 1.0) # of average (Hessian unchanged)

    C3, dd3 = sparse.hessian(kT=kT)
    C1, dd1 = dense.hessian(kT=kT)

    close(C3, C2, 'Hessian with average')
    close(C1, C2, 'Hessian with average', tol=3 * TOL)

    s = Smearing(c.name, 2.0)
    e = dense.e.ravel()
    U = dense.U.reshape((len(e), len(e)))
    d = -s.df(e / kT)
    dm = np.array([[U.T.conj().dot(x).dot(U) for x in dense.d0.reshape((-1,
        len(e), len(e)))]])[0]
    ref = np.einsum('xmn,ymn,m,n->xy', dm.conj(), dm, d, d).real / d.sum() ** 2

    close(np.reshape(dd3, ref.shape), ref, 'average (sparse)', tol=TOL)
    close(np.reshape(dd1, ref.shape), ref, 'average (dense)', tol=TOL)

    # superconductivity:

    w2 = np.linalg.eigvalsh(C.real / np.sqrt(np.outer(np.tile(ph.M.repeat(3),
        cells), np.tile(ph.M.repeat(3), cells))))

    if abs(w2).min() > 1e-6:
        options = dict(kT=kT) if c.other else {}
        eps = 1e-10

        if c.cut and (w2 > 1e-6).sum() > 1: # between two frequencies
            i = len(w2) - (w2 > 1e-6).sum() // 2

            if w2[i] > 1.01 * w2[i - 1]:
                eps = options['eps'] = (w2[i - 1] + w2[i]) / 2

        results = [driver.superconductivity(**options)
            for driver in (mesh, dense, sparse)]

        if w2.max() > 1e-6:
            for result in results:
                close(result, results[2], 'superconductivity', tol=1e-8,
                    rtol=1e-2)

            mm = np.sqrt(np.tile(ph.M.repeat(3), cells))
            x, v = np.linalg.eigh(C.real / np.outer(mm, mm))
            g2 = np.einsum('xn,xy,yn->n', v, ref / np.outer(mm, mm), v)

            ok = x > eps
            g2[~ok] = 0
            x[~ok] = eps
            V = g2 / x
            lamda = d.sum() / kT * V.sum()

            if V.sum() > 1e-12:
                close(results[2], [lamda, np.exp((V * np.log(x)).sum()
                    / V.sum() / 2), np.sqrt((V * x).sum() / V.sum()),
                    np.sign(w2[0]) * np.sqrt(abs(w2[0]))],
                    'explicit superconductivity', tol=1e-8, rtol=1e-2)

    # different displacements in all cells:

    u = centered(g, nat * cells, 0.2)

    E1 = dense.free_energy(u.copy(), show=False)
    E2 = sparse.free_energy(u.copy(), show=False)

    close(E2, E1, 'energy (different cells)', tol=5e-5)

    if dos(dense) < 0.05 or abs(dense.mu - sparse.mu) > 1e-3:
        return False

    close(sparse.jacobian(show=False), dense.jacobian(show=False),
        'forces (different cells)', tol=TOL)
    close(sparse.hessian(), dense.hessian(), 'Hessian (different cells)',
        tol=3 * TOL)

    return True


@P.sub('models', quick=90, seed=seeds, nel=st.integers(1, 3),
    nat=st.integers(1, 2), nk=st.tuples(*[st.integers(1, 2)] * 3),
    factor=st.tuples(*[st.integers(1, 2)] * 3), kT=kTs,
    name=st.sampled_from(monotonic), rydberg=st.booleans(),
    divide_mass=st.booleans(), supercell=st.booleans(), lr=st.booleans(),
    step=st.tuples(*[st.booleans()] * 3), sparse=st.booleans())
def models_(c):
    """Renormalized models agree with Hamiltonian and Hessian."""

    g = rng(c.seed)
    nat = c.nat + 1
    el, ph, elph = models(g, c.nel, nat, lr=c.lr, real=c.sparse)
    f = Smearing(c.name, 2.0).setup()

    nq = c.nk
    nk = tuple(np.multiply(c.nk, c.factor))
    n = 0.6 * c.nel

    if c.supercell or c.sparse:
        if np.prod(nk) > 8 and not c.sparse:
            return False

        elph = elph.supercell(1, 2, sparse=c.sparse)
        n *= 2

    if c.sparse:
        nk = nq = (1, 1, 1)

    driver = elphmod.md.Driver(elph, kT=c.kT, f=f, n=n, nk=nk, nq=nq)
    driver.u[:] = centered(g, elph.ph.nat, 0.2)
    driver.diagonalize()

    # electrons:

    steps = [2 if step and m % 2 == 0 else 1 for step, m in zip(c.step, nk)]

    new = driver.electrons(rydberg=c.rydberg, dk1=steps[0], dk2=steps[1],
        dk3=steps[2])

    equal(new.rydberg, c.rydberg, 'unit')
    unit = 1.0 if c.rydberg else elphmod.misc.Ry

    for m in np.ndindex(*[a // b for a, b in zip(nk, steps)]):
        k = 2 * np.pi * np.multiply(m, steps) / nk

        if c.sparse:
            H = elph.el.Hs.toarray() + sum(x * d.toarray() for x, d
                in zip(driver.u, elph.gs))
        else:
            H = (np.einsum('R,Rab->ab', np.exp(1j * elph.el.R.dot(k)),
                elph.el.data) + np.einsum('x,xab->ab', driver.u,
                elph.g(0, 0, 0, *k)))

        H = H - driver.mu * np.eye(len(H))

        close(new.H(*k), H * unit, 'Hamiltonian')

    # phonons:

    new = driver.phonons(divide_mass=c.divide_mass)

    close(new.r, elph.ph.r + driver.u.reshape((-1, 3)), 'positions')
    equal(new.divide_mass, c.divide_mass, 'mass convention')

    M = np.sqrt(np.repeat(elph.ph.M, 3))
    mm = np.outer(M, M) if c.divide_mass else 1.0

    for q, C in zip(driver.q, driver.hessian(gamma_only=False)):
        close(new.D(*q), C / mm, 'dynamical matrix')

    return True


@P.sub('option', quick=80, seed=seeds, nel=st.integers(1, 2),
    nat=st.integers(2, 3), N=st.sampled_from([[2], [3], [1, 2], [2, 2],
    [1, 1, 3], [2, 1, 2]]), kT=kTs, name=st.sampled_from(monotonic),
    unscreen=st.booleans(), lr=st.booleans(), given=st.booleans())
def option(c):
    """Matrices of simulations on supercell set up by the driver itself."""

    g = rng(c.seed)
    el, ph, elph = models(g, c.nel, c.nat, real=True, lr=c.lr)
    f = Smearing(c.name, 2.0).setup()
    n = 1.1 * c.nel

    N = tuple(c.N) + (1,) * (3 - len(c.N))
    cells = int(np.prod(N))

    options = dict(kT=c.kT, f=f, unscreen=c.unscreen, n=n, nk=N, nq=N)

    mesh = elphmod.md.Driver(elph, **options)

    if c.given:
        options.update(scale=2.0, basis=[[0]])

    old = fingerprint(el, ph, elph)
    driver = elphmod.md.Driver(elph, supercell=N, **options)
    unchanged(old, el, ph, elph)

    if c.given:
        equal((driver.scale, driver.basis), (2.0, [[0]]), 'attributes')

    R = np.array(driver.elph.cells)

    equal(len(R), cells, 'number of cells')
    close(driver.n, n * cells, 'number of electrons')

    def bloch(D, q):
        out = np.zeros((cells, D.shape[-1], cells, D.shape[-1]), dtype=complex)

        for i in range(cells):
            for j in range(cells):
                for x, y in zip(q, D):
                    out[i, :, j] += y * np.exp(1j * x.dot(R[i] - R[j])) / cells

        return out.reshape((cells * D.shape[-1],) * 2)

    tol = 1e-6 if c.lr else 1e-8

    C = bloch(mesh.C0, mesh.q)
    close(driver.C0[0], C.real, 'force constants', tol=tol)

    size = el.size
    H = bloch(mesh.H0.reshape((cells, size, size)), mesh.k.reshape((cells, 3)))
    close(driver.H0, H, 'Hamiltonian')

    return True


@P.sub('files', quick=590, seed=seeds, nel=st.integers(1, 3),
    nat=st.integers(2, 3), nk=st.tuples(*[st.integers(1, 2)] * 3), kT=kTs,
    name=st.sampled_from(monotonic), gamma=st.booleans(), asr=st.booleans(),
    rydberg=st.booleans(), sparse=st.booleans(), fermi=st.booleans())
def files(c):
    """Hessian and Hamiltonian written to file."""

    g = rng(c.seed)
    el, ph, elph = models(g, c.nel, c.nat, real=c.sparse)
    ph.atom_order[:] = ['Ta', 'S', 'X'][:c.nat]
    f = Smearing(c.name, 2.0).setup()
    nk = c.nk

    if c.sparse:
        elph = elph.supercell(1, 2, sparse=True)
        nk = (1, 1, 1)

    driver = elphmod.md.Driver(elph, kT=c.kT, f=f, n=0.6 * elph.el.size, nk=nk,
        nq=nk)
    driver.u[:] = centered(g, elph.ph.nat, 0.2)
    driver.diagonalize()

    r = elph.ph.r.copy()
    path = tempfile.mkdtemp(prefix='vp_s17_')

    try:
        name = os.path.join(path, 'dyn')

        C = driver.hessian(gamma_only=c.gamma, apply_asr_simple=c.asr)
        D = driver.hessian(gamma_only=c.gamma, apply_asr_simple=c.asr,
            fildyn=name, kT=c.kT if c.fermi else None)

        if c.fermi:
            D = D[0]

        elphmod.MPI.comm.Barrier()

        # called only on one process by the code:

        data = None

        if elphmod.MPI.comm.rank == 0:
            data = elphmod.ph.read_flfrc(name)

        (q, E), M, a, tau, X, alpha, eps, Z = elphmod.MPI.comm.bcast(data)

        new = driver.electrons(os.path.join(path, 'el'), rydberg=c.rydberg)

        elphmod.MPI.comm.Barrier()

        again = elphmod.el.Model(os.path.join(path, 'el'), rydberg=c.rydberg)
    finally:
        if elphmod.MPI.comm.rank == 0:
            shutil.rmtree(path)

    equal(elph.ph.r, r, 'model modified')
    close(D, C, 'Hessian returned')
    close(E, C[np.newaxis] if c.gamma else C, 'Hessian written', tol=2e-8)
    close(np.exp(1j * np.dot(q, elph.ph.a.T)), np.exp(1j
        * np.array(driver.q[:len(q)])), 'q points', tol=1e-6)
    close(M, elph.ph.M, 'masses', tol=1e-6, rtol=1e-9)
    close(a, elph.ph.a, 'lattice', tol=1e-6)
    close(tau, r + driver.u.reshape(r.shape), 'positions', tol=1e-6)
    equal(list(X), list(elph.ph.atom_order), 'species')
    check(eps is None and Z is None, 'dielectric properties')

    for k in g.uniform(-np.pi, np.pi, (3, 3)):
        close(again.H(*k), new.H(*k), 'Hamiltonian', tol=1e-4)

    return True


@P.sub('photoexcited', quick=600, seed=seeds, nel=st.integers(2, 4),
    nat=st.integers(2, 2), nk=st.lists(st.integers(1, 3), min_size=1,
    max_size=2), nx=st.sampled_from([0.05, 0.2, 0.5]),
    kT=st.sampled_from([0.05, 0.1]), unscreen=st.booleans(),
    sparse=st.booleans(), option=st.booleans())
def photoexcited(c):
    """Two separate numbers of electrons are conserved."""

    g = rng(c.seed)
    el, ph, elph = models(g, c.nel, c.nat, real=c.sparse, coupling=0.1)

    # insulator with large band gap:

    zero = np.flatnonzero(np.all(el.R == 0, axis=1))
    el.data *= 0.05

    nv = c.nel // 2

    el.data[zero[0]] += np.diag([-3.0] * nv + [3.0] * (c.nel - nv))

    n = 2 * nv
    nk = tuple(c.nk)
    nx = c.nx
    f = elphmod.occupations.two_fermi_dirac
    f.d = 5.0

    if c.sparse and c.option:
        driver = elphmod.md.Driver(elph, kT=c.kT, f=f, n=n, nx=nx, nk=(2,),
            nq=(2,), supercell=(2,), unscreen=c.unscreen)

    if c.sparse:
        elph = elph.supercell(2, sparse=True)
        n *= 2
        nx *= 2
        nv *= 2
        nk = (1,)

    if not (c.sparse and c.option):
        driver = elphmod.md.Driver(elph, kT=c.kT, f=f, n=n, nx=nx, nk=nk,
            unscreen=c.unscreen)

    weight = 2 / np.prod(nk)
    s = Smearing('fd')

    u = centered(g, elph.ph.nat, 0.2)

    if c.sparse:
        H0 = elph.el.Hs.toarray()[np.newaxis]
        d0 = np.array([x.toarray()[np.newaxis] for x in elph.gs])
    else:
        r = Reference(elph, nk, n, c.kT, 'fd')
        H0 = r.H0
        d0 = r.d0

    def solve(u):
        e, U = np.linalg.eigh(H0 + np.einsum('x,xkab->kab', u, d0))

        E = 0.0
        f = np.empty(e.shape)

        for some, N in (slice(0, nv), n - nx), (slice(nv, None), nx):
            x = e[:, some]

            mu = scipy.optimize.brentq(lambda mu: weight * s.f((x - mu)
                / c.kT).sum() - N, x.min() - 9, x.max() + 9, xtol=1e-14)

            f[:, some] = weight * s.f((x - mu) / c.kT)
            E += weight * c.kT * s.w((x - mu) / c.kT).sum() + mu * N

        return E, np.einsum('xkab,kbn,kn,kan->x', d0, U, f, U.conj()).real

    def hessian(u, h=2e-3):
        H = []

        for x in range(len(u)):
            v = np.zeros(len(u))
            v[x] = h

            H.append((8 * (solve(u + v)[1] - solve(u - v)[1])
                - (solve(u + 2 * v)[1] - solve(u - 2 * v)[1])) / (12 * h))

        return np.array(H)

    zero = np.zeros(len(u))
    D = elph.ph.Ds.toarray() if c.sparse else elph.ph.D().real
    F0 = -solve(zero)[1]

    if c.unscreen:
        D = D - hessian(zero)

    E = driver.free_energy(u.copy(), show=False)
    F = driver.jacobian(show=False)
    rho = driver.density()

    close(rho.sum(), n, 'electrons', tol=1e-4)

    E1, F1 = solve(u)

    close(F, F1 + D.dot(u) + F0, 'forces', tol=TOL)

    close(E, E1 + u.dot(D).dot(u) / 2 + F0.dot(u), 'energy', tol=1e-5)

    close(driver.hessian(), hessian(u) + D, 'Hessian', tol=10 * TOL)

    return True


@P.sub('insulator', quick=960, seed=seeds, nel=st.integers(2, 4),
    nat=st.integers(2, 2), nk=st.lists(st.integers(1, 3), min_size=1,
    max_size=2), kT=st.sampled_from([0.02, 0.1]), unscreen=st.booleans(),
    sparse=st.booleans(), name=st.sampled_from(kinds[:4]),
    gap=st.sampled_from([2.0, 6.0]))
def insulator(c):
    """Free energy and derivatives if Fermi level lies in large band gap."""

    g = rng(c.seed)
    el, ph, elph = models(g, c.nel, c.nat, real=c.sparse, coupling=0.1)

    zero = np.flatnonzero(np.all(el.R == 0, axis=1))
    el.data *= 0.03

    nv = c.nel // 2

    el.data[zero[0]] += 0.5 * c.gap * np.diag([-1.0] * nv
        + [1.0] * (c.nel - nv))

    nk = tuple(c.nk)

    if c.sparse:
        elph = elph.supercell(2, sparse=True)
        nv *= 2
        nk = (1,)

    f = Smearing(c.name).setup()

    driver = elphmod.md.Driver(elph, kT=c.kT, f=f, n=2 * nv, nk=nk,
        unscreen=c.unscreen)

    u = centered(g, elph.ph.nat, 0.2)

    if c.sparse:
        H0 = elph.el.Hs.toarray()[np.newaxis]
        d0 = np.array([x.toarray()[np.newaxis] for x in elph.gs])
    else:
        r = Reference(elph, nk, 2 * nv, c.kT, 'fd')
        H0 = r.H0
        d0 = r.d0

    weight = 2 / len(H0)

    def solve(u):
        e, U = np.linalg.eigh(H0 + np.einsum('x,xkab->kab', u, d0))

        if e[:, nv].min() - e[:, nv - 1].max() < 80 * c.kT:
            raise ValueError

        U = U[:, :, :nv]

        return (weight * e[:, :nv].sum(),
            weight * np.einsum('xkab,kbn,kan->x', d0, U, U.conj()).real)

    def hessian(u, h=2e-3):
        H = []

        for x in range(len(u)):
            v = np.zeros(len(u))
            v[x] = h

            H.append((8 * (solve(u + v)[1] - solve(u - v)[1])
                - (solve(u + 2 * v)[1] - solve(u - 2 * v)[1])) / (12 * h))

        return np.array(H)

    zero = np.zeros(len(u))
    D = elph.ph.Ds.toarray() if c.sparse else elph.ph.D().real

    E = driver.free_energy(u.copy(), show=False)

    s = Smearing(c.name)

    if abs(s.f(driver.e / c.kT) * 2 - 1).min() < 1 - 1e-13:
        return False # chemical potential close to band edge

    try:
        F0 = -solve(zero)[1]

        if c.unscreen:
            D = D - hessian(zero)

        E1, F1 = solve(u)
        H1 = hessian(u)
    except ValueError:
        return False

    close(E, E1 + u.dot(D).dot(u) / 2 + F0.dot(u), 'energy', tol=1e-5)
    close(driver.jacobian(show=False), F1 + D.dot(u) + F0, 'forces', tol=TOL)
    close(driver.hessian(), H1 + D, 'Hessian', tol=3 * TOL)
    close(driver.density().sum(), 2 * nv, 'electrons')

    return True
