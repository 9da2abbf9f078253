"""S23: Superconductivity estimates obey McMillan and Allen-Dynes."""

import itertools

import numpy as np
from scipy import constants

import elphmod

from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)
from vp.refs import Smearing
from vp.checks.s13 import band, kinds, triangles, wrapped, hat, \
    ref_double_delta

P = Property('S23',
    'Random coupling strengths, phonon energies, Coulomb pseudopotentials, '
    'bands, squared couplings, and squared phonon frequencies (including '
    'unstable and vanishing ones) on meshes with up to 6 k points per '
    'dimension and q meshes commensurate with them. Non-trivial: nonzero '
    'coupling at the Fermi level (and nonzero critical temperature for Tc).',
    ['The denominator of the double Fermi-surface average must not vanish.',
    'Numerically undecidable intersections of isolines are excluded.'])

eliashberg = elphmod.eliashberg

kB = constants.k / constants.e # eV/K


def ref_Tc(lamda, wlog, mustar, w2nd=None, correct=False):
    """Eqs. (2) and (34) by Allen and Dynes, Phys. Rev. B 12, 905 (1975)."""

    denominator = lamda - mustar - 0.62 * lamda * mustar

    if denominator <= 1e-3:
        return 0.0

    T = wlog / kB / 1.2 * np.exp(-1.04 * (1 + lamda) / denominator)

    if correct:
        L1 = 2.46 + 9.348 * mustar

        T *= (1 + (lamda / L1) ** (3 / 2)) ** (1 / 3)

        if w2nd is not None:
            ratio = w2nd / wlog
            L2 = (1.82 + 11.466 * mustar) * ratio

            T *= 1 + (ratio - 1) * lamda ** 2 / (lamda ** 2 + L2 ** 2)

    return T


@P.sub('Tc', quick=24000,
    lamda=st.one_of(st.floats(0, 5), st.floats(0, 0.3), st.integers(0, 4)),
    wlog=st.floats(1e-5, 1.0), mustar=st.one_of(st.floats(0, 0.5),
        st.just(0.1), st.none()), ratio=st.one_of(st.none(),
        st.floats(0.3, 4)), correct=st.booleans(), scale=st.floats(0.1, 10))
def Tc(c):
    mustar = 0.1 if c.mustar is None else c.mustar
    w2nd = None if c.ratio is None else c.ratio * c.wlog

    k = dict()

    if c.mustar is not None:
        k.update(mustar=mustar)
    if w2nd is not None:
        k.update(w2nd=w2nd)
    if c.correct:
        k.update(correct=True)

    T = eliashberg.Tc(c.lamda, c.wlog, **k)
    ref = ref_Tc(c.lamda, c.wlog, mustar, w2nd, c.correct)

    close(T, ref, 'critical temperature', tol=1e-12, rtol=1e-6)
    check(T >= 0, 'negative critical temperature')

    if c.lamda * (1 - 0.62 * mustar) <= mustar:
        close(T, 0.0, 'Coulomb repulsion prevails', tol=1e-12)

    if w2nd is not None:
        k.update(w2nd=w2nd * c.scale)

    close(eliashberg.Tc(c.lamda, c.wlog * c.scale, **k), T * c.scale,
        'proportional to phonon energies', tol=1e-12, rtol=1e-9)

    if c.lamda * (1 - 0.62 * mustar) > mustar and not c.correct:
        check(eliashberg.Tc(c.lamda + 0.1, c.wlog, **k) >= T,
            'critical temperature decreases with coupling strength')

    return T > 0


def orbit(q, nq):
    """Images of point under rotations and reflections of hexagonal lattice."""

    # Cartesian matrices in crystal coordinates of reciprocal lattice

    b = np.array([[1, 0], [0.5, np.sqrt(0.75)]]) # at 60 degrees

    images = set()

    for n in range(6):
        phi = n * np.pi / 3

        for mirror in 1, -1:
            R = np.array([[np.cos(phi), -np.sin(phi)],
                [np.sin(phi), np.cos(phi)]]).dot(np.diag([1, mirror]))

            image = np.dot(q, b).dot(R.T).dot(np.linalg.inv(b))

            images.add(tuple(int(x) % nq for x in np.round(image)))

    return images


def stars(nq):
    """First point of every star in lexicographic order and whole star."""

    done = set()
    result = []

    for q in itertools.product(range(nq), repeat=2):
        if q not in done:
            star = orbit(q, nq)
            done |= star
            result.append((q, star))

    return result


def averages(V, w2, lamda0):
    """Coupling strength and average frequencies."""

    total = V.sum()

    return (lamda0 * total, np.exp((V * 0.5 * np.log(w2)).sum() / total),
        np.sqrt((V * w2).sum() / total))


def ref_McMillan(g2dd, dd, w2, weights, N0, eps):
    """From double-delta sums for all stars."""

    num = 0.0
    V = np.zeros_like(w2)

    for iQ in range(len(w2)):
        for nu in range(w2.shape[1]):
            if w2[iQ, nu] >= eps:
                V[iQ, nu] = weights[iQ] * g2dd[iQ, nu] / w2[iQ, nu]

    return averages(V, np.where(V == 0, 1.0, w2), N0 / np.dot(weights, dd))


def phonons(g, nQ, nph, unstable):
    w2 = g.uniform(0.01, 0.2, (nQ, nph)) ** 2

    if unstable:
        for n in range(g.integers(1, 3)):
            w2[g.integers(nQ), g.integers(nph)] = g.choice([0.0, -1e-3, -1e-12,
                3e-11, 1e-3])

    return w2


def compare(result, ref, mustar, correct, message, tol=1e-8):
    lamda, wlog, w2nd = ref

    equal(len(result), 4 if correct else 3, 'number of results')

    close(result[0], lamda, message + ': coupling strength', tol=tol)
    close(result[1], wlog, message + ': frequency', tol=tol)
    close(result[2], ref_Tc(lamda, wlog, mustar, w2nd if correct else None,
        correct), message + ': critical temperature', tol=tol, rtol=1e-6)

    if correct:
        close(result[3], w2nd, message + ': second moment', tol=tol)


common = dict(seed=seeds, nq=st.integers(1, 4), mult=st.integers(1, 3),
    nph=st.integers(1, 3), nel=st.integers(1, 3), unstable=st.booleans(),
    correct=st.booleans(), mustar=st.sampled_from([None, 0.0, 0.1, 0.15]),
    eps=st.sampled_from([None, 1e-10, 1e-4]))


def arguments(c):
    k = dict()

    if c.mustar is not None:
        k.update(mustar=c.mustar)
    if c.correct:
        k.update(correct=True)
    if c.eps is not None:
        k.update(eps=c.eps)

    return k, c.mustar or 0.0, 1e-10 if c.eps is None else c.eps


@P.sub('smeared', quick=4800, kT=st.sampled_from([None, 0.05, 0.3, 1.0]),
    f=st.sampled_from([None, 'fd', 'gauss', 'mv', 'lorentz', 'object']),
    **common)
def smeared(c):
    g = rng(c.seed)
    nk = c.nq * c.mult
    Q = stars(c.nq)
    nQ = len(Q)

    kT = 0.025 if c.kT is None else c.kT

    e = g.uniform(-2, 2, (nk, nk, c.nel)) * kT
    g2 = g.uniform(0, 1e-2, (nQ, c.nph, nk, nk, c.nel, c.nel))
    w2 = phonons(g, nQ, c.nph, c.unstable)

    k, mustar, eps = arguments(c)

    if c.kT is not None:
        k.update(kT=c.kT)
    if c.f is not None:
        k.update(f=elphmod.occupations.gauss if c.f == 'object' else c.f)

    f = Smearing(dict(object='gauss').get(c.f, c.f or 'fd'))

    delta = -f.df(e / kT) / kT

    g2dd = np.zeros((nQ, c.nph))
    dd = np.zeros(nQ)

    for iQ, (q, star) in enumerate(Q):
        for k1, k2 in itertools.product(range(nk), repeat=2):
            K1 = (k1 + q[0] * c.mult) % nk
            K2 = (k2 + q[1] * c.mult) % nk

            for m, n in itertools.product(range(c.nel), repeat=2):
                weight = delta[K1, K2, m] * delta[k1, k2, n]

                g2dd[iQ] += weight * g2[iQ, :, k1, k2, m, n]
                dd[iQ] += weight

    weights = np.array([len(star) for q, star in Q])
    N0 = delta.sum() / nk ** 2

    if not (abs(np.dot(weights, dd)) > 1e-3 and np.any((w2 >= eps)
            & (g2dd > 0))):
        return False

    ref = ref_McMillan(g2dd, dd, w2, weights, N0, eps)

    if not ref[0] > 1e-6: # delta functions may be negative
        return False

    old = e.copy(), w2.copy(), g2.copy()

    result = eliashberg.McMillan(c.nq, e, w2, g2, **k)

    compare(result, ref, mustar, c.correct, 'double Fermi-surface sum')

    for a, b in zip((e, w2, g2), old):
        equal(a, b, 'argument modified')

    # invariance under mesh shift and order of modes and bands

    shift = tuple(g.integers(0, nk, 2))
    modes = g.permutation(c.nph)
    bands = g.permutation(c.nel)

    compare(eliashberg.McMillan(c.nq,
        np.roll(e, shift, axis=(0, 1))[..., bands], w2[:, modes],
        np.roll(g2, shift, axis=(2, 3))[:, modes][..., bands, :][..., bands],
        **k), ref, mustar, c.correct, 'shifted mesh and different order')

    # scaling of coupling

    result2 = eliashberg.McMillan(c.nq, e, w2, 3.7 * g2, **k)

    close(result2[0], 3.7 * result[0], 'proportional to squared coupling')
    close(result2[1], result[1], 'frequency independent of coupling scale')

    return True


@P.sub('tetra', quick=600, kind=st.sampled_from(['random', 'cos']),
    **common)
def tetra(c):
    g = rng(c.seed)
    nk = c.nq * c.mult
    nel = min(c.nel, 2)
    Q = stars(c.nq)
    nQ = len(Q)

    e = np.empty((nk, nk, nel))

    for n in range(nel):
        e[:, :, n] = band(g, nk, c.kind)

    z = g.choice(e.ravel(), 2, replace=True).mean()
    e -= z + 1e-3 * g.normal()

    g2 = g.uniform(0, 1e-2, (nQ, c.nph, nk, nk, nel, nel))
    w2 = phonons(g, nQ, c.nph, c.unstable)

    k, mustar, eps = arguments(c)

    g2dd = np.zeros((nQ, c.nph))
    dd = np.zeros(nQ)

    one = np.ones((nk, nk))

    for iQ, (q, star) in enumerate(Q):
        E = np.empty_like(e)

        for k1, k2 in itertools.product(range(nk), repeat=2):
            E[k1, k2] = e[(k1 + q[0] * c.mult) % nk,
                (k2 + q[1] * c.mult) % nk]

        for m, n in itertools.product(range(nel), repeat=2):
            x = e[:, :, n]
            y = E[:, :, m]

            points = ref_double_delta(x, y, one, 0.0, nk)

            if points is None:
                return False

            dd[iQ] += sum(weight for point, weight in points)

            for nu in range(c.nph):
                g2dd[iQ, nu] += sum(weight for point, weight in
                    ref_double_delta(x, y, g2[iQ, nu, :, :, m, n], 0.0, nk))

    weights = np.array([len(star) for q, star in Q])

    N0 = sum(hat(np.array([e[p + (n,)] for p in wrapped(t, nk)]), 0.0)
        for n in range(nel) for t in triangles(nk)) / (2 * nk ** 2)

    if not (abs(np.dot(weights, dd)) > 1e-3 and np.any((w2 >= eps)
            & (g2dd > 0))):
        return False

    ref = ref_McMillan(g2dd, dd, w2, weights, N0, eps)

    if not ref[0] > 1e-6: # delta functions may be negative
        return False

    old = e.copy(), w2.copy(), g2.copy()

    result = eliashberg.McMillan(c.nq, e, w2, g2, tetra=True, **k)

    compare(result, ref, mustar, c.correct, 'double Fermi-surface sum',
        tol=1e-6)

    for a, b in zip((e, w2, g2), old):
        equal(a, b, 'argument modified')

    shift = tuple(g.integers(0, nk, 2))

    compare(eliashberg.McMillan(c.nq, np.roll(e, shift, axis=(0, 1)), w2,
        np.roll(g2, shift, axis=(2, 3)), tetra=True, kT=0.1, f='gauss', **k),
        ref, mustar, c.correct, 'shifted mesh', tol=1e-6)

    return True


@P.sub('symmetric', quick=1800, seed=seeds, nq=sizes(1, 6, 9),
    mult=st.integers(1, 2), nph=sizes(1, 2, 6),
    f=st.sampled_from(['fd', 'gauss']))
def symmetric(c):
    """Irreducible wedge is sufficient for symmetric systems."""

    g = rng(c.seed)
    nk = c.nq * c.mult
    kT = 0.3

    def function(n):
        """Random function with symmetry of the lattice."""

        a = np.empty((n, n))

        for q, star in stars(n):
            value = g.uniform(0.2, 1)

            for Q in star:
                a[Q] = value

        return a

    e = 2 * function(nk) - 1
    A = [function(nk) for nu in range(c.nph)]
    B = [function(c.nq) for nu in range(c.nph)]
    W = [1e-2 * function(c.nq) for nu in range(c.nph)]

    Q = list(itertools.product(range(c.nq), repeat=2))

    def coupling(q, nu):
        return 1e-2 * B[nu][q] * A[nu] * np.array([[
            A[nu][(i + q[0] * c.mult) % nk, (j + q[1] * c.mult) % nk]
            for j in range(nk)] for i in range(nk)])

    delta = -Smearing(c.f).df(e / kT) / kT

    V = np.zeros((len(Q), c.nph))
    W2 = np.zeros((len(Q), c.nph))
    dd = 0.0

    for iq, q in enumerate(Q):
        shifted = np.array([[delta[(i + q[0] * c.mult) % nk,
            (j + q[1] * c.mult) % nk] for j in range(nk)] for i in range(nk)])

        dd += (delta * shifted).sum()

        for nu in range(c.nph):
            W2[iq, nu] = W[nu][q]
            V[iq, nu] = (coupling(q, nu) * delta * shifted).sum() / W2[iq, nu]

    ref = averages(V, W2, delta.sum() / nk ** 2 / dd)

    irr = [q for q, star in stars(c.nq)]

    w2 = np.array([[W[nu][q] for nu in range(c.nph)] for q in irr])
    g2 = np.array([[coupling(q, nu) for nu in range(c.nph)] for q in irr])

    result = eliashberg.McMillan(c.nq, e[..., np.newaxis], w2,
        g2[..., np.newaxis, np.newaxis], kT=kT, f=c.f, correct=True)

    compare(result, ref, 0.0, True, 'sum over whole Brillouin zone')

    return c.nq > 1
