"""S15: Diagrams equal their defining sums."""

import itertools

import numpy as np

import elphmod

from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)
from vp.refs import Smearing
from vp.checks.s14 import spectrum, meshes, smearings

P = Property('S15',
    'Random energies (with exact degeneracies), eigenvectors (all or some '
    'bands), couplings and interactions on meshes in one to three dimensions, '
    'random q points of the mesh (also outside the first zone), all smearing '
    'functions. Non-trivial: more than one electronic state.',
    ['Shapes as documented.'])

d = elphmod.diagrams

smear = st.sampled_from(smearings + ['lorentz'])
kinds = st.sampled_from(['random', 'degenerate', 'inversion'])
kTs = st.sampled_from([0.05, 0.5])


def setup(c):
    g = rng(c.seed)
    s = Smearing(c.smear, 2.0)
    f = s.setup()

    if c.string and c.smear in ('fd', 'gauss', 'mp', 'mv', 'lorentz'):
        f = c.smear

    return g, s, f


def unitary(g, *shape):
    return np.linalg.qr(g.normal(size=shape) + 1j * g.normal(size=shape))[0]


def cplx(g, *shape):
    return g.normal(size=shape) + 1j * g.normal(size=shape)


def qpoints(g, nq, nk, listq):
    iq = g.integers(-1, np.array(nk) + 1, (nq, len(nk)))
    q = 2 * np.pi * iq / nk

    return iq, [tuple(x) for x in q] if listq else q


def pairs(iq, nk):
    for k in np.ndindex(*nk):
        yield k, tuple((np.array(k) + iq) % nk)


class Unchanged:
    """Verify that arguments are not modified."""

    def __init__(self, *args):
        self.args = args
        self.old = [np.copy(arg) for arg in args]

    def __call__(self):
        for arg, old in zip(self.args, self.old):
            equal(arg, old, 'argument modified')


@P.sub('susceptibility', quick=18000, seed=seeds, nk=sizes(1, 6, 14),
    kind=kinds, smear=smear, kT=kTs, string=st.booleans(),
    eta=st.sampled_from([None, 1e-10, 0.1]))
def susceptibility(c):
    g, s, f = setup(c)
    nk = (c.nk, c.nk)
    e = spectrum(g, nk, 1, c.kind)[..., 0]

    same = Unchanged(e)

    k = dict() if c.eta is None else dict(eta=c.eta)
    eta = 1e-10 if c.eta is None else c.eta

    chi = d.susceptibility(e, c.kT, occupations=f, **k)

    for iq in g.integers(-c.nk, 2 * c.nk, (4, 2)):
        q = 2 * np.pi * iq / c.nk

        if np.all(iq % c.nk == 0):
            ref = 2 * np.mean(s.df(e / c.kT)) / c.kT
        else:
            e2 = np.roll(e, shift=tuple(-iq), axis=(0, 1))
            ref = 2 * np.mean((s.f(e2 / c.kT) - s.f(e / c.kT)) / (e2 - e
                + 1j * eta)).real

        close(chi(*q), ref, 'susceptibility', tol=1e-9, q=q)

    ref = 2 * np.mean(s.df(e / c.kT)) / c.kT
    close(chi(), ref, 'susceptibility at q = 0', tol=1e-9)
    close(chi(q2=0), ref, 'susceptibility at q = 0', tol=1e-9)

    same()

    return c.nk > 1


@P.sub('susceptibility2', quick=2110, seed=seeds, nk=sizes(1, 4, 8),
    kind=kinds, kT=st.sampled_from([0.1, 0.3]),
    nmats=st.sampled_from([1, 10, 300, 1000]), hyb=st.sampled_from([0.0, 0.0,
        0.3]), width=st.sampled_from([None, 0.7]))
def susceptibility2(c):
    g = rng(c.seed)
    s = Smearing('fd')
    nk = (c.nk, c.nk)
    e = spectrum(g, nk, 1, c.kind)[..., 0]

    same = Unchanged(e)

    k = dict(nmats=c.nmats) if c.nmats != 1000 else dict()

    if c.hyb:
        k['hyb_height'] = c.hyb

    if c.width:
        k['hyb_width'] = c.width

    chi = d.susceptibility2(e, c.kT, **k)

    nu = np.pi * c.kT * (2 * np.arange(c.nmats) + 1)
    Delta = -2j * c.hyb * np.arctan(2 * (c.width or 1.0) / nu)

    for iq in g.integers(-c.nk, 2 * c.nk, (3, 2)):
        q = 2 * np.pi * iq / c.nk
        e2 = np.roll(e, shift=tuple(-iq), axis=(0, 1))

        # sum over positive and negative frequencies; tail ~ 1 / (i nu)^2

        ref = -1 / (2 * c.kT)

        for sign in -1, 1:
            for n in range(c.nmats):
                z = sign * (1j * nu[n] - Delta[n])
                ref += 2 * c.kT * np.mean(1 / (z - e) / (z - e2)
                    + 1 / nu[n] ** 2)

        close(np.real(chi(*q)), ref.real, 'Matsubara sum', tol=1e-9)

        if c.nmats >= 300 and not c.hyb:
            close(np.real(chi(*q)), 2 * np.mean(s.dd(e2, e, c.kT)),
                'converged Matsubara sum', tol=1e-3)

    return c.nk > 1


@P.sub('polarization', quick=8040, seed=seeds, nk=meshes, norb=sizes(1,
    3, 5), less=st.integers(0, 1), kind=kinds, smear=smear, kT=kTs,
    string=st.booleans(), subspace=st.sampled_from(['none', 'all', 'random',
    'flat']), flat=st.booleans())
def polarization(c):
    g, s, f = setup(c)
    nk = tuple(c.nk)
    norb = c.norb
    n = max(1, norb - c.less)

    e = spectrum(g, nk, n, c.kind)
    U = unitary(g, *nk, norb, norb)[..., :n].copy()

    k = dict(kT=c.kT, occupations=f)
    sub = np.zeros(e.shape, dtype=bool)

    if c.subspace == 'all':
        sub[...] = True
    elif c.subspace != 'none':
        sub = g.random(e.shape) < 0.6

    if c.subspace != 'none':
        k['subspace'] = sub.ravel() if c.subspace == 'flat' else sub

    same = Unchanged(e, U, sub)
    Pi = d.polarization(e, U.reshape((-1, norb, n)) if c.flat else U, **k)

    results = []

    for iq in g.integers(-1, np.array(nk) + 1, (3, len(nk))):
        q = 2 * np.pi * iq / nk
        ref = np.zeros((norb, norb), dtype=complex)

        for x, y in pairs(iq, nk):
            for m in range(n):
                for l in range(n):
                    if sub[y][m] and sub[x][l]:
                        continue

                    u = U[y][:, m] * U[x][:, l].conj()
                    ref += s.dd(e[y][m], e[x][l], c.kT) * np.outer(u, u.conj())

        ref *= 2 / np.prod(nk)

        result = Pi(*q)
        close(result, ref, 'polarization', tol=1e-9, q=q)
        results.append((q, result, result.copy()))

        close(result, result.conj().T, 'polarization is not Hermitian')

        if c.subspace == 'none' and n == norb:
            # charge conservation: density response of all orbitals

            total = 2 * np.mean([sum(abs(np.vdot(U[x][:, l], U[y][:, m])) ** 2
                * s.dd(e[y][m], e[x][l], c.kT) for m in range(n)
                for l in range(n)) for x, y in pairs(iq, nk)])
            close(result.sum(), total, 'total response', tol=1e-9)

    for q, result, old in results: # closure reuses its buffers
        equal(result, old, 'earlier result modified')
        close(Pi(*q), old, 'repeated evaluation', tol=1e-12)

    close(Pi(), Pi(0, 0, 0), 'default wave vector')

    same()

    return e.size > 1


def bubble(s, e, U, g1, iq, nk, kT, nsub):
    """sum[k m n] U(k+q, c, m) U*(k, d, n) dfde <m|g|n> (orbital c, d)"""

    norb = U.shape[-2]
    ref = np.zeros((g1.shape[0], norb, norb), dtype=complex)

    for x, y in pairs(iq, nk):
        for m in range(nsub):
            for n in range(nsub):
                ref += (s.dd(e[y][m], e[x][n], kT)
                    * np.outer(U[y][:, m], U[x][:, n].conj())
                    * g1[(slice(None),) + x + (m, n)][:, None, None])

    return 2 / np.prod(nk) * ref


@P.sub('renormalize', quick=8590, seed=seeds, nk=meshes, norb=sizes(1, 3, 5),
    less=st.integers(0, 1), kind=kinds, smear=smear, kT=kTs,
    string=st.booleans(), nq=st.integers(1, 3), nmodes=st.integers(1, 2),
    dd=st.booleans(), nsub=st.integers(0, 3), basis=st.sampled_from(['band',
    'orbital', 'both']), listq=st.booleans())
def renormalize(c):
    g, s, f = setup(c)
    nk = tuple(c.nk)
    norb = c.norb
    n = max(1, norb - c.less)

    if c.basis == 'both':
        n = norb

    e = spectrum(g, nk, n, c.kind)
    U = unitary(g, *nk, norb, norb)[..., :n].copy()

    iq, q = qpoints(g, c.nq, nk, c.listq)

    G = cplx(g, c.nq, c.nmodes, *nk, norb, norb)
    W = cplx(g, c.nq, *([norb] * (2 if c.dd else 4)))

    # coupling in band basis

    gb = np.empty((c.nq, c.nmodes, *nk, n, n), dtype=complex)

    for i in range(c.nq):
        for x, y in pairs(iq[i], nk):
            for nu in range(c.nmodes):
                gb[(i, nu) + x] = U[y].conj().T.dot(G[(i, nu) + x]).dot(U[x])

    k = dict(kT=c.kT, occupations=f)

    def dress(Pig, i, nu):
        """k-independent correction in orbital basis"""

        if c.dd:
            return np.diag(W[i].dot(np.diag(Pig)))
        return np.einsum('abcd,cd->ab', W[i], Pig)

    def orbital(nsub):
        dg = np.empty((c.nq, c.nmodes, norb, norb), dtype=complex)
        Pig = []

        for i in range(c.nq):
            Pig.append(bubble(s, e, U, gb[i], iq[i], nk, c.kT, nsub))

            for nu in range(c.nmodes):
                dg[i, nu] = dress(Pig[-1][nu], i, nu)

        return np.array(Pig), dg

    same = Unchanged(e, U, G, W, gb)

    if c.basis in ('orbital', 'both'):
        Pig, dg = orbital(n)

        result = d.Pi_g(q, e, G, U, dd=c.dd, status=False, **k)
        close(result, np.einsum('qxcc->qxc', Pig) if c.dd else Pig,
            'coupling joined with Lindhard bubble', tol=1e-9)

        dressed = d.renormalize_coupling_orbital(q, e, G, W, U, status=False,
            **k)
        ref = G + dg.reshape((c.nq, c.nmodes) + (1,) * len(nk) + (norb, norb))
        close(dressed, ref, 'dressed coupling in orbital basis', tol=1e-9)

    if c.basis in ('band', 'both'):
        nsub = min(c.nsub, n)

        if nsub:
            k['nbnd_sub'] = nsub

        Pig, dg = orbital(nsub or n)

        result = d.renormalize_coupling_band(q, e, gb, W, U, status=False, **k)

        ref = gb.copy()

        for i in range(c.nq):
            for x, y in pairs(iq[i], nk):
                for nu in range(c.nmodes):
                    ref[(i, nu) + x] += U[y].conj().T.dot(dg[i, nu]).dot(U[x])

        close(result, ref, 'dressed coupling in band basis', tol=1e-9)

    same()

    return e.size > 1


@P.sub('Fermi_shift', quick=6000, seed=seeds, nk=meshes, n=sizes(1, 3, 6),
    smear=smear, kT=kTs, string=st.booleans(), nmodes=st.integers(1, 3),
    depth=st.sampled_from([0.0, 1.0, 3.0, 10.0, 'far']), flat=st.booleans())
def Fermi_shift(c):
    """Correction for changes of Fermi level, down to vanishing densities."""

    g, s, f = setup(c)
    nk, n = tuple(c.nk), c.n
    e = g.normal(size=(*nk, n))

    if c.depth == 'far':
        e = g.choice([-1, 1], e.shape) * 1e4
    else:
        e = np.sign(e) * (abs(e) + c.depth * c.kT)

    V = g.normal(size=(c.nmodes, *nk, n, n))
    V = V + V.swapaxes(-2, -1)

    same = Unchanged(e, V)
    result = d.phonon_self_energy_fermi_shift(e, V.reshape((c.nmodes, -1, n,
        n)) if c.flat else V, kT=c.kT, occupations=f)
    same()

    w = -s.df(e / c.kT) / c.kT
    a = np.einsum('kn,xknn->x', w.reshape((-1, n)), V.reshape((c.nmodes,
        -1, n, n)))

    equal(result.shape, (c.nmodes, c.nmodes), 'shape of correction')

    if not w.any():
        equal(result, np.zeros((c.nmodes, c.nmodes)), 'insulator')
    elif abs(w).max() > 1e-60 and abs(w.sum()) > 1e-3 * abs(w).sum():
        ref = 2 * np.outer(a, a) / w.sum() / np.prod(nk)
        close(result, ref, 'correction', tol=1e-5 * abs(w).sum()
            / len(w.ravel()) * abs(V).max() ** 2, rtol=0)

    return e.size > 1 and c.depth != 'far'


@P.sub('average', quick=18000, seed=seeds, nk=meshes, n=sizes(1, 3, 6),
    kind=kinds, smear=smear, kT=kTs, string=st.booleans(), nq=st.integers(1,
    3), nmodes=st.integers(1, 3), g2=st.sampled_from(['none', 'real',
    'complex']), listq=st.booleans())
def average(c):
    g, s, f = setup(c)
    nk, n = tuple(c.nk), c.n
    e = spectrum(g, nk, n, c.kind)
    iq, q = qpoints(g, c.nq, nk, c.listq)

    if c.g2 == 'none':
        M = np.ones((c.nq, 1, *nk, n, n))
        args = ()
    else:
        M = cplx(g, c.nq, c.nmodes, *nk, n, n)

        if c.g2 == 'real':
            M = abs(M) ** 2

        args = (M,)

    same = Unchanged(e, M)
    enum, deno = d.double_fermi_surface_average(q, e, *args, kT=c.kT,
        occupations=f)
    same()

    delta = -s.df(e / c.kT) / c.kT

    ref = np.zeros((c.nq, M.shape[1]), dtype=M.dtype)
    ref2 = np.zeros(c.nq)

    for i in range(c.nq):
        for x, y in pairs(iq[i], nk):
            D = np.outer(delta[y], delta[x])
            ref2[i] += D.sum()

            for nu in range(M.shape[1]):
                ref[i, nu] += (M[(i, nu) + x] * D).sum()

    close(enum, ref, 'enumerator', tol=1e-9)
    close(deno, ref2, 'denominator', tol=1e-9)
    equal(enum.dtype, ref.dtype, 'data type')

    return e.size > 1


@P.sub('Fan_Migdal', quick=18000, seed=seeds, nk=meshes, n=sizes(1, 3, 6),
    kind=kinds, smear=smear, kT=kTs, string=st.booleans(), nK=st.integers(1,
    3), nmodes=sizes(1, 3, 6), nw=sizes(1, 4, 20), listk=st.booleans())
def Fan_Migdal(c):
    g, s, f = setup(c)
    nk, n, kT = tuple(c.nk), c.n, c.kT
    e = spectrum(g, nk, n, c.kind)
    w = g.uniform(0.05, 1.0, (*nk, c.nmodes))
    ik, k = qpoints(g, c.nK, nk, c.listk)
    g2 = g.uniform(0, 1, (*nk, c.nmodes, c.nK, n, n))
    omega = g.uniform(-1, 1, c.nw) + 0.1j

    same = Unchanged(e, w, g2, omega)
    Sigma = d.fan_migdal_self_energy(k, e, w, g2, omega, kT=kT, occupations=f)
    same()

    ref = np.zeros((c.nK, n, c.nw), dtype=complex)

    for i in range(c.nK):
        for q in np.ndindex(*nk):
            kq = tuple((ik[i] + q) % nk)

            for nu in range(c.nmodes):
                N = 1 / np.expm1(w[q][nu] / kT)

                for m in range(n):
                    x = omega - e[kq][m]
                    F = s.f(e[kq][m] / kT)
                    term = ((F + N) / (x + w[q][nu])
                        + (1 - F + N) / (x - w[q][nu]))

                    for l in range(n):
                        ref[i, l] += g2[q + (nu, i, m, l)] * term

    ref /= np.prod(nk)

    close(Sigma, ref, 'electron self-energy', tol=1e-9)

    return e.size > 1


@P.sub('Green_Kubo', quick=18000, seed=seeds, nk=meshes, n=sizes(1, 2, 5),
    ndim=st.integers(1, 3), smear=smear, kT=kTs, string=st.booleans(),
    lo=st.integers(0, 4), hi=st.integers(0, 4), step=st.sampled_from([0.1,
    0.37]), dc=st.booleans(), nonuniform=st.booleans())
def Green_Kubo(c):
    g, s, f = setup(c)
    nk, n, kT = tuple(c.nk), c.n, c.kT

    if c.smear == 'two' and not c.dc:
        return False # occupation at discontinuity

    omega = c.step * np.arange(-c.lo, max(1, c.hi) + 1)

    if not c.dc and c.seed % 10 == 0: # zero missing or not equidistant
        wrong = omega + 0.3 * c.step if c.nonuniform else np.append(omega,
            omega[-1] + 2 * c.step)

        try:
            d.green_kubo_conductivity(g.normal(size=(*nk, n, c.ndim)),
                g.uniform(0, 1, (*nk, n, len(wrong))), wrong, kT=kT,
                occupations=f)
        except SystemExit:
            pass
        else:
            check(False, 'improper frequencies accepted', omega=wrong)

    if c.dc and c.nonuniform:
        omega = np.sort(g.uniform(-1, 1, len(omega) + 1))

    nw = len(omega)
    v = g.normal(size=(*nk, n, c.ndim))
    A = g.uniform(0, 1, (*nk, n, nw))

    same = Unchanged(v, A, omega)
    sigma = d.green_kubo_conductivity(v, A, omega, kT=kT, occupations=f,
        dc_only=c.dc)
    same()

    v = v.reshape((-1, c.ndim))
    A = A.reshape((-1, nw))

    def term(i, j):
        return np.einsum('n,na,nb->ab', A[:, i] * A[:, j], v, v)

    prefactor = 4 * np.pi / np.prod(nk)

    if c.dc:
        ref = np.zeros((c.ndim, c.ndim))

        for i in range(nw): # trapezoidal rule
            weight = 0.0
            if i > 0:
                weight += (omega[i] - omega[i - 1]) / 2
            if i < nw - 1:
                weight += (omega[i + 1] - omega[i]) / 2

            if nw == 1:
                return False

            ref -= weight * s.df(omega[i] / kT) / kT * term(i, i)
    else:
        ref = np.zeros((nw, c.ndim, c.ndim))
        zero = c.lo

        for w in range(nw):
            D = w - zero

            for i in range(nw):
                j = i + D

                if 0 <= j < nw:
                    if D:
                        F = (s.f(omega[i] / kT) - s.f(omega[j] / kT)) / omega[w]
                    else:
                        F = -s.df(omega[i] / kT) / kT

                    ref[w] += c.step * F * term(i, j)

    close(sigma, prefactor * ref, 'conductivity', tol=1e-9)

    return True
