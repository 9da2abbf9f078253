"""S14: Response functions are derivatives of the grand potential."""

import itertools

import numpy as np

import elphmod

from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)
from vp.refs import Smearing

P = Property('S14',
    'Random Hamiltonians on k meshes in one to three dimensions with exactly '
    'degenerate bands or k points, random Hermitian perturbations of zero and '
    'finite wave vector, all smearing functions, windows, and options. '
    'Non-trivial: more than one state and a partial occupation, or the option '
    'under test is in use.',
    ['Energies are either degenerate within 1e-11 or differ by more than 1e-3 '
    '(third-order diagram) since divided differences cancel numerically.',
    'Derivatives are finite differences, accurate to a few 1e-5.'])

d = elphmod.diagrams

smearings = ['fd', 'gauss', 'mp', 'mv', 'double', 'two']

meshes = st.sampled_from([(1,), (2,), (3,), (5,), (2, 2), (3, 2), (1, 4),
    (3, 3), (2, 1, 2), (2, 2, 2), (1, 3, 2), (6, 6), (12,), (4, 3, 2)])


def spectrum(g, nk, n, kind, gap=1e-3):
    """Energies whose differences are zero or not too small."""

    size = int(np.prod(nk)) * n

    if kind == 'degenerate':
        e = g.choice(np.array([-1.0, -0.4, 0.0, 0.3, 1.1]), size)
    elif kind == 'inversion': # equivalent k points
        e = g.permutation(np.linspace(-1, 1, size))[:size]
        e = e.reshape((*nk, n))
        for i in np.ndindex(*nk):
            j = tuple(-a % b for a, b in zip(i, nk))
            e[j] = e[i]
        return e
    elif kind == 'deep':
        e = g.permutation(np.linspace(-3, 0.5, size)) * 10
    else:
        e = g.permutation(np.linspace(-1.5, 1.2, size))
        e += g.uniform(-0.2, 0.2, size) / size

    return e.reshape((*nk, n))


def hermitian(g, *shape):
    V = g.normal(size=shape) + 1j * g.normal(size=shape)
    return 0.5 * (V + V.conj().swapaxes(-1, -2))


def omega(s, H, kT):
    """Grand potential per unit cell."""

    e = np.linalg.eigvalsh(H)
    return 2 * kT * s.w(e / kT).sum() / np.prod(H.shape[:-2])


@P.sub('potential', quick=18000, seed=seeds, nk=meshes, n=sizes(1, 3, 7),
    kind=st.sampled_from(['random', 'degenerate', 'inversion', 'deep']),
    smear=st.sampled_from(smearings), d=st.sampled_from([2.0, 5.0]),
    kT=st.sampled_from([0.001, 0.025, 0.3, 2.0]))
def potential(c):
    g = rng(c.seed)
    s = Smearing(c.smear, c.d)
    f = s.setup()

    e = spectrum(g, c.nk, c.n, c.kind)

    if c.smear == 'two':
        e = e + 0.0123

    ref = 2 * c.kT * s.w(e / c.kT).sum() / np.prod(c.nk)

    old = e.copy()
    close(d.grand_potential(e, c.kT, f), ref, 'grand potential', tol=1e-10)
    equal(e, old, 'energies modified')

    # two copies of the same bands, repeated k points

    close(d.grand_potential(np.concatenate([e, e], axis=-1), c.kT, f), 2 * ref,
        'twice the bands', tol=1e-10)
    close(d.grand_potential(np.concatenate([e, e], axis=0), c.kT, f), ref,
        'repeated k points', tol=1e-10)

    if c.smear == 'fd' and c.kT == 0.025:
        close(d.grand_potential(e), ref, 'default settings', tol=1e-10)

    return e.size > 1


@P.sub('expansion', quick=7480, seed=seeds, nk=meshes, n=st.integers(1, 3),
    kind=st.sampled_from(['random', 'degenerate', 'inversion']),
    smear=st.sampled_from(smearings), d=st.sampled_from([1.0, 3.0]),
    kT=st.sampled_from([0.5, 1.0]), basis=st.booleans())
def expansion(c):
    """q = 0: all orders against finite differences."""

    g = rng(c.seed)
    s = Smearing(c.smear, c.d)
    f = s.setup()
    nk, n, kT = tuple(c.nk), c.n, c.kT

    e = spectrum(g, nk, n, c.kind)

    if c.smear == 'two': # discontinuous at the Fermi level
        e = np.where(e < 0, e - 0.6, e + 0.6)

    V = 0.2 * hermitian(g, 2, *nk, n, n)

    H0 = e[..., None] * np.eye(n)

    def E(u, v=0.0):
        return omega(s, H0 + u * V[0] + v * V[1], kT)

    h = 0.1

    def stencil(E, h):
        x = [E(m * h) for m in range(-4, 5)]
        c1 = np.array([1/280, -4/105, 1/5, -4/5, 0, 4/5, -1/5, 4/105, -1/280])
        c2 = np.array([-1/560, 8/315, -1/5, 8/5, -205/72, 8/5, -1/5, 8/315,
            -1/560])
        c3 = np.array([-7/240, 3/10, -169/120, 61/30, 0, -61/30, 169/120,
            -3/10, 7/240])
        return (c1.dot(x) / h, c2.dot(x) / h ** 2, c3.dot(x) / h ** 3)

    d1, d2, d3 = stencil(E, h)

    tol = 3e-4

    old = e.copy(), V.copy()

    first = d.first_order(e, V, kT, occupations=f)
    close(first[0], d1, 'first order', tol=tol)

    close(d.first_order(e, V[0], kT, occupations=f), first[:1],
        'first order (single perturbation)')

    q = np.zeros((2, len(nk)))

    Pi = d.phonon_self_energy(q[:1], e, g2=abs(V[0]) ** 2, kT=kT,
        occupations=f)
    equal(Pi.shape, (1, 1), 'shape of phonon self-energy')
    close(Pi[0, 0], d2, 'second order', tol=tol)

    Pi = d.phonon_self_energy(q[:1], e, g=V[None], kT=kT, occupations=f)
    equal(Pi.shape, (1, 2, 2), 'shape of phonon self-energy')
    close(Pi[0, 0, 0], d2, 'second order (matrix)', tol=tol)
    close(Pi[0], Pi[0].conj().T, 'phonon self-energy is not Hermitian')

    mixed = sum(w1 * w2 * E(i * h, j * h)
        for i, w1 in zip(range(-3, 4), [-1/60, 3/20, -3/4, 0, 3/4, -3/20, 1/60])
        for j, w2 in zip(range(-3, 4), [-1/60, 3/20, -3/4, 0, 3/4, -3/20, 1/60])
        if w1 and w2) / h ** 2

    close(Pi[0, 0, 1].real, mixed, 'mixed second order', tol=tol)

    t = d.triangle(q[0], q[0], e, V[0], V[0], V[0], kT=kT, occupations=f)
    close(t, d3, 'third order', tol=10 * tol)

    # other basis

    if c.basis:
        U = np.linalg.qr(g.normal(size=(*nk, n, n)) + 1j * g.normal(size=(*nk,
            n, n)))[0]
        VU = np.einsum('...am,x...mn,...bn->x...ab', U, V, U.conj())
        close(d.first_order(e, VU, kT, U=U, occupations=f), first,
            'first order in orbital basis')

    # constant number of electrons

    N = lambda mu, u: 2 * s.f((np.linalg.eigvalsh(H0 + u[0] * V[0] + u[1]
        * V[1]) - mu) / kT).sum() / np.prod(nk)

    if c.smear in ('fd', 'gauss') and c.kind != 'deep':
        from scipy.optimize import brentq

        N0 = N(0.0, (0, 0))

        def F(u, v):
            mu = brentq(lambda mu: N(mu, (u, v)) - N0, -5, 5, xtol=1e-14)
            x = np.linalg.eigvalsh(H0 + u * V[0] + v * V[1]) - mu
            return 2 * kT * s.w(x / kT).sum() / np.prod(nk) + mu * N0

        shift = d.phonon_self_energy_fermi_shift(e, V, kT=kT, occupations=f)
        equal(shift.shape, (2, 2), 'shape of correction')

        total = (Pi[0] + shift).real

        close(total[0, 0], stencil(lambda u: F(u, 0.0), h)[1],
            'second order at constant number of electrons', tol=tol)

        w = [1/12, -2/3, 0, 2/3, -1/12]
        mixed = sum(w1 * w2 * F(i * h, j * h)
            for i, w1 in zip(range(-2, 3), w) for j, w2 in zip(range(-2, 3), w)
            if w1 and w2) / h ** 2

        close(total[0, 1], mixed,
            'mixed second order at constant number of electrons', tol=10 * tol)

    equal(e, old[0], 'energies modified')
    equal(V, old[1], 'coupling modified')

    return e.size > 1


def big(g, nk, n, e):
    """Hamiltonian of Born-von Karman supercell and coupling blocks."""

    k = list(np.ndindex(*nk))
    index = {x: i for i, x in enumerate(k)}
    N = len(k)

    H = np.zeros((N, n, N, n), dtype=complex)

    for i, x in enumerate(k):
        H[i, :, i, :] = np.diag(e[x])

    def embed(q, gq):
        V = np.zeros((N, n, N, n), dtype=complex)

        for i, x in enumerate(k):
            j = index[tuple((a + b) % m for a, b, m in zip(x, q, nk))]
            V[j, :, i, :] += gq[x]

        V = V.reshape((N * n, N * n))
        return V + V.conj().T

    return H.reshape((N * n, N * n)), embed


@P.sub('finite_q', quick=9680, seed=seeds, nk=st.sampled_from([(5,), (7,), (3,
    3), (1, 5), (5, 1, 1), (1, 3, 1), (3,), (3, 1, 3), (4,)]),
    n=st.integers(1, 2), kind=st.sampled_from(['random', 'degenerate',
    'inversion']), smear=st.sampled_from(smearings), kT=st.sampled_from([0.5,
    1.0]), wrap=st.booleans())
def finite_q(c):
    """Finite q: second and third order in Born-von Karman supercell."""

    g = rng(c.seed)
    s = Smearing(c.smear, 2.0)
    f = s.setup()
    nk, n, kT = tuple(c.nk), c.n, c.kT

    while True:
        q, Q = g.integers(0, nk, (2, len(nk)))

        if all(np.any(2 * x % nk) for x in (q, Q)):
            break

    third = bool(np.any(2 * (q - Q) % nk))

    e = spectrum(g, nk, n, c.kind)

    if c.smear == 'two':
        e = np.where(e < 0, e - 0.6, e + 0.6)

    gq, gQ, gqQ = 0.15 * (g.normal(size=(3, *nk, n, n))
        + 1j * g.normal(size=(3, *nk, n, n)))

    H, embed = big(g, nk, n, e)

    Nk = np.prod(nk)

    def E(V):
        x = np.linalg.eigvalsh(H + V)
        return 2 * kT * s.w(x / kT).sum() / Nk

    def point(q):
        shift = g.integers(-1, 2, len(nk)) if c.wrap else 0
        return 2 * np.pi * (q / np.array(nk) + shift)

    V1 = embed(q, gq)
    h = 0.1

    x = [E(m * h * V1) for m in range(-4, 5)]
    d2 = np.dot([-1/560, 8/315, -1/5, 8/5, -205/72, 8/5, -1/5, 8/315, -1/560],
        x) / h ** 2

    Pi = d.phonon_self_energy([point(q)], e, g2=abs(gq[None, None]) ** 2,
        kT=kT, occupations=f)
    close(2 * Pi[0, 0], d2, 'second order at finite q', tol=3e-4)

    Pi = d.phonon_self_energy([point(q)], e, g=gq[None, None], kT=kT,
        occupations=f)
    close(2 * Pi[0, 0, 0], d2, 'second order at finite q (matrix)', tol=3e-4)

    if not third:
        return True

    V2, V3 = embed(Q, gQ), embed(q - Q, gqQ)

    def mixed(h):
        return sum(a * b * t * E(h * (a * V1 + b * V2 + t * V3))
            for a in (-1, 1) for b in (-1, 1) for t in (-1, 1)) / (2 * h) ** 3

    m1, m2, m3 = mixed(h), mixed(2 * h), mixed(3 * h)
    m = 1.5 * m1 - 0.6 * m2 + 0.1 * m3 # cancels orders h^2 and h^4

    t = d.triangle(point(q), point(Q), e, gq, gQ, gqQ, kT=kT, occupations=f)

    # both orders in which the momenta can be transferred:

    t2 = d.triangle(point(q), point(q - Q), e, gq, gqQ, gQ, kT=kT,
        occupations=f)

    close((t + t2).real, m, 'third order at finite q', tol=3e-4)

    # phases of couplings

    a, b = np.exp(2j * np.pi * g.random(2))

    close(d.triangle(point(q), point(Q), e, a * gq, b * gQ, gqQ, kT=kT,
        occupations=f), np.conj(a) * b * t, 'phases of couplings')

    return True


@P.sub('triangle', quick=10250, seed=seeds, nk=meshes, n=sizes(1, 3, 5),
    kind=st.sampled_from(['random', 'degenerate', 'inversion']),
    smear=st.sampled_from(smearings + ['lorentz']),
    kT=st.sampled_from([0.1, 0.5]), string=st.booleans())
def triangle(c):
    """Explicit sum for all q points, degeneracies, and smearings."""

    g = rng(c.seed)
    s = Smearing(c.smear, 2.0)
    f = s.setup()
    nk, n, kT = tuple(c.nk), c.n, c.kT

    q, Q = g.integers(0, nk, (2, len(nk)))
    e = spectrum(g, nk, n, c.kind)

    if c.smear == 'two':
        e = e + 0.0123

    gq, gQ, gqQ = (g.normal(size=(3, *nk, n, n))
        + 1j * g.normal(size=(3, *nk, n, n)))

    if c.string and c.smear in ('fd', 'gauss', 'mp', 'mv', 'lorentz'):
        f = c.smear

    ref = np.zeros((*nk, n, n, n), dtype=complex)

    for k in np.ndindex(*nk):
        kq = tuple((np.array(k) + q) % nk)
        kQ = tuple((np.array(k) + Q) % nk)

        for x, y, z in np.ndindex(n, n, n):
            ref[k + (x, y, z)] = 4 * (s.ddd(e[k][x], e[kq][y], e[kQ][z], kT)
                * gq[k][y, x].conj() * gQ[k][z, x] * gqQ[kQ][y, z])

    old = [x.copy() for x in (e, gq, gQ, gqQ)]

    args = (2 * np.pi * q / nk, 2 * np.pi * Q / nk, e, gq, gQ, gqQ)

    close(d.triangle(*args, kT=kT, occupations=f), ref.sum() / np.prod(nk),
        'triangle diagram', rtol=1e-6, tol=1e-6 * abs(ref).max() + 1e-9)

    t, tk = d.triangle(*args, kT=kT, occupations=f, fluctuations=True)

    close(t, ref.sum() / np.prod(nk), 'triangle diagram', rtol=1e-6,
        tol=1e-6 * abs(ref).max() + 1e-9)
    close(tk, ref, 'integrand of triangle diagram', rtol=1e-6, tol=1e-8)

    for x, y in zip((e, gq, gQ, gqQ), old):
        equal(x, y, 'argument modified')

    return e.size > 1


@P.sub('self_energy', quick=12480, seed=seeds, nk=meshes, n=sizes(1, 3, 6),
    kind=st.sampled_from(['random', 'degenerate', 'inversion']),
    smear=st.sampled_from(smearings + ['lorentz']),
    kT=st.sampled_from([0.025, 0.5]), nq=sizes(1, 4, 8),
    nmodes=sizes(1, 3, 6), coupling=st.sampled_from(['none', 'g2', 'g',
        'gG', 'real g']), omega=st.sampled_from(['none', 'zero', 'scalar',
        'vector', 'matrix', 'real', 'mixed']), window=st.sampled_from(['none', 'Delta',
        'diff']), Delta_smear=st.sampled_from(['gauss', 'fd']),
    fluctuations=st.booleans(), symmetrize=st.booleans(),
    diagonal=st.booleans(), U=st.booleans(), flat=st.booleans(),
    string=st.booleans(), listq=st.booleans(), eps=st.sampled_from([None,
    1e-10, 0.05]))
def self_energy(c):
    g = rng(c.seed)
    s = Smearing(c.smear, 2.0)
    f = s.setup()
    nk, n, kT, nmodes = tuple(c.nk), c.n, c.kT, c.nmodes

    if c.string and c.smear in ('fd', 'gauss', 'mp', 'mv', 'lorentz'):
        f = c.smear

    e = spectrum(g, nk, n, c.kind)
    iq = g.integers(-1, np.array(nk) + 1, (c.nq, len(nk)))

    if c.nq == 1 and g.random() < 0.3:
        iq[...] = 0

    q = 2 * np.pi * iq / nk

    # mesh resolution:

    q = q + g.uniform(-1, 1, q.shape) * 1e-3

    if c.listq:
        q = [tuple(x) for x in q]

    k = dict(kT=kT, occupations=f)
    shape = (c.nq, nmodes, *nk, n, n)

    g1 = g.normal(size=shape) + 1j * g.normal(size=shape)
    G1 = g.normal(size=shape) + 1j * g.normal(size=shape)

    if c.coupling == 'real g':
        g1 = g1.real.copy()

    eps = 1e-10

    if c.eps is not None:
        k['eps'] = eps = c.eps

    omega = None
    w = np.array(0.0)

    if c.omega == 'zero':
        w = k['omega'] = 0.0
    elif c.omega == 'scalar':
        w = k['omega'] = complex(*g.uniform((-0.5, 0.05), (0.5, 0.3)))
    elif c.omega == 'real':
        w = k['omega'] = 0.31234
    elif c.omega == 'vector':
        w = k['omega'] = g.uniform(0, 1, 3) + 0.05j
    elif c.omega == 'matrix':
        w = k['omega'] = g.uniform(0, 1, (2, 2)) + 0.05j
    elif c.omega == 'mixed': # only some frequencies vanish
        w = k['omega'] = g.permutation([0.0, g.uniform(0.1, 0.5) * 1j,
            g.uniform(0.1, 0.5) + 0.05j])

    w = np.array(w)

    Theta = np.ones(e.shape)
    dTheta = np.zeros(e.shape)

    if c.window != 'none':
        k['Delta'] = D = g.uniform(0.1, 0.6)
        k['Delta_kT'] = T = g.uniform(0.1, 0.4)
        k['Delta_occupations'] = c.Delta_smear
        S = Smearing(c.Delta_smear)
        Theta = 2 - S.f((e - D) / T) - S.f((-e - D) / T)
        dTheta = (S.df((e - D) / T) + S.df((-e - D) / T)) / T
        k['Delta_diff'] = c.window == 'diff'

    # coupling squared

    if c.coupling == 'none':
        M = np.ones((c.nq, 1, 1, 1, 1)).reshape((c.nq, 1) + (1,) * (len(nk)
            + 2))
    elif c.coupling == 'g2':
        M = abs(g1) ** 2
        k['g2'] = M.copy()
    else:
        k['g'] = g1.copy()
        GG = g1

        if c.coupling == 'gG':
            k['G'] = G1.copy()
            GG = G1

        M = g1[:, :, None].conj() * GG[:, None]

        if c.coupling == 'gG' and c.symmetrize:
            M = 0.5 * (M + GG[:, :, None].conj() * g1[:, None])

        k['symmetrize'] = c.symmetrize

        if c.diagonal:
            k['diagonal'] = True
            M = M * np.eye(nmodes).reshape((1, nmodes, nmodes) + (1,)
                * (len(nk) + 2))

    contact = 0

    if c.U:
        k['U'] = contact = 0.3 * g.normal(size=(n, n))

    if c.flat:
        for name in 'g', 'G', 'g2':
            if name in k: # any shape that yields the right order
                k[name] = k[name].reshape((c.nq * nmodes, -1, n, n))

    # explicit sum

    ph = M.shape[1:-len(nk) - 2]
    ref = np.zeros((c.nq, *ph, *w.shape, *nk, n, n), dtype=complex)
    X = np.zeros((c.nq, *w.shape, *nk, n, n), dtype=complex)

    for i in range(c.nq):
        for x in np.ndindex(*nk):
            y = tuple((np.array(x) + iq[i]) % nk)

            A = e[y][:, None] # k + q, m
            B = e[x][None, :] # k, n

            if c.omega == 'mixed' and abs(B - A).min() < 1e-4:
                return False

            if np.any(w != 0):
                F = ((s.f(B / kT) - s.f(A / kT))
                    / (B - A + w[..., None, None]))
            else:
                F = s.dd(A, B, kT, eps) + np.zeros(w.shape + (n, n))

            if c.window == 'Delta':
                F = F * Theta[y][:, None] * Theta[x][None, :]
            elif c.window == 'diff':
                F = F * (Theta[y][:, None] * dTheta[x][None, :]
                    + dTheta[y][:, None] * Theta[x][None, :])

            X[(i, Ellipsis) + x + (slice(None),) * 2] = F

            for nu in np.ndindex(*ph):
                m = M[(i,) + nu]
                m = m[x] if m.size > 1 or nk == (1,) * len(nk) and n == 1 \
                    and c.coupling != 'none' else np.ones((n, n))
                ref[(i,) + nu + (Ellipsis,) + x + (slice(None),) * 2] = m * F

    axes = tuple(range(-2 - len(nk), 0))
    kaxes = tuple(range(-2 - len(nk), -2))
    total = 2 * ref.sum(axis=axes) / np.prod(nk)

    if c.U and 'g' in k:
        GG = G1 if c.coupling == 'gG' else g1
        ex = (slice(None), slice(None)) + (None,) * w.ndim
        chi0 = 2 * X.sum(axis=kaxes) / np.prod(nk)
        L = 2 * (g1.conj()[ex] * X[:, None]).sum(axis=kaxes) / np.prod(nk)
        R = 2 * (GG[ex] * X[:, None]).sum(axis=kaxes) / np.prod(nk)
        W = contact / (1 - chi0 * contact)
        total = total + (L[:, :, None] * W[:, None, None] * R[:, None]).sum(
            axis=(-2, -1))

    old = {key: np.copy(value) for key, value in k.items()
        if isinstance(value, np.ndarray)}
    eold = e.copy()

    result = d.phonon_self_energy(q, e, fluctuations=c.fluctuations, **k)

    if c.fluctuations:
        result, integrand = result
        close(integrand, 2 * ref, 'integrand of phonon self-energy',
            rtol=1e-8, tol=1e-9)

    real = c.coupling in ('none', 'g2', 'real g') and c.omega in ('none',
        'zero', 'real')
    check(np.isrealobj(result) == real, 'type of phonon self-energy')

    close(result, total, 'phonon self-energy', rtol=1e-8, tol=1e-8)

    equal(e, eold, 'energies modified')

    for key, value in old.items():
        equal(k[key], value, '%s modified' % key)

    if (c.coupling in ('g', 'real g') and c.omega in ('none', 'zero')
            and not (c.U and 'g' in k)):
        close(result, result.conj().swapaxes(1, 2), 'Hermiticity')

    return c.coupling != 'none' and e.size > 1


@P.sub('matsubara', quick=3000, seed=seeds, nk=st.integers(1, 4),
    kind=st.sampled_from(['random', 'degenerate', 'inversion']),
    kT=st.sampled_from([0.1, 0.3]), nmodes=st.integers(1, 3),
    nq=st.integers(1, 3), nmats=st.sampled_from([1, 7, 400]),
    hyb=st.sampled_from([0.0, 0.0, 0.2]), listq=st.booleans())
def matsubara(c):
    g = rng(c.seed)
    nk = (c.nk, c.nk)
    e = spectrum(g, nk, 1, c.kind)[..., 0]

    iq = g.integers(0, c.nk, (c.nq, 2))
    q = 2 * np.pi * iq / c.nk

    if c.listq:
        q = [tuple(x) for x in q]

    g2 = g.uniform(0, 1, (c.nq, c.nmodes, *nk))
    width = g.uniform(0.5, 1.5)

    k = dict(kT=c.kT, nmats=c.nmats)

    if c.hyb:
        k.update(hyb_width=width, hyb_height=c.hyb)

    old = e.copy(), g2.copy()

    Pi = d.phonon_self_energy2(q, e, g2, **k)

    equal(e, old[0], 'energies modified')
    equal(g2, old[1], 'coupling modified')

    # finite sums

    nu = np.pi * c.kT * (2 * np.arange(c.nmats) + 1)
    Delta = -2j * c.hyb * np.arctan(2 * width / nu)
    tail = 1 / (4 * c.kT) - 2 * c.kT * np.sum(1 / nu ** 2)

    S = Smearing('fd')

    for i in range(c.nq):
        e2 = np.roll(e, shift=tuple(-iq[i]), axis=(0, 1))

        chi = np.zeros(nk)

        for n in range(c.nmats):
            chi += 4 * c.kT * (1 / (1j * nu[n] - e - Delta[n])
                / (1j * nu[n] - e2 - Delta[n])).real

        chi -= 2 * tail
        chi /= c.nk ** 2

        ref = (g2[i] * chi).sum(axis=(1, 2))
        close(Pi[i], ref, 'Matsubara sum', tol=1e-9)

        if c.nmats == 400 and not c.hyb:
            ref = 2 / c.nk ** 2 * (g2[i] * S.dd(e2, e, c.kT)).sum(axis=(1, 2))
            close(Pi[i], ref, 'converged Matsubara sum', tol=1e-3)

    return c.nk > 1
