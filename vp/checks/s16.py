"""S16: Dispersions diagonalize the model along any path."""

import itertools

import numpy as np
import scipy.linalg

import elphmod

from vp import gen
from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints,
    raises)

P = Property('S16',
    'Random Hermitian and general matrix functions of 1-7 bands (also with '
    'exact degeneracies), random lists and meshes of k points in one to three '
    'dimensions, all options, smooth bands with known connectivity, random '
    'supercells with arbitrary eigenvectors. Non-trivial: more than one band '
    'and more than one k point.',
    ['Energies are numbers of order one.'])

dispersion = elphmod.dispersion


def fourier(g, bands, hermitian=True, kind='random', n=4):
    """Matrix function with period 2 pi of up to three variables."""

    R = g.integers(-2, 3, (n, 3))
    A = g.normal(size=(n, bands, bands)) + 1j * g.normal(size=(n, bands, bands))

    if kind == 'real':
        A = A.real

    U = np.linalg.qr(g.normal(size=(bands, bands)))[0]

    # complex-conjugate pairs of eigenvalues:

    pairs = not hermitian and kind == 'real' and g.integers(2)

    def matrix(k1=0, k2=0, k3=0, scale=1.0):
        p = np.exp(1j * R.dot([k1, k2, k3]))
        H = scale * np.einsum('R,Rab->ab', p, A)

        if hermitian:
            H = H + H.T.conj()

        if pairs:
            H = H.real.copy()

        if kind == 'degenerate':
            H = U * (H.trace().real * (np.arange(bands) // 2)) @ U.T

        return H

    return matrix


kshapes = st.sampled_from([[1], [5], [1, 1], [7, 1], [4, 2], [6, 3], [1, 3],
    [2, 3, 2], [3, 1, 3], [2, 2, 2, 3]])


@P.sub('eigen', quick=20000, seed=seeds, bands=sizes(1, 7, 20),
    hermitian=st.booleans(), kind=st.sampled_from(['random', 'real',
    'degenerate']), kshape=kshapes, vectors=st.booleans(),
    gauge=st.booleans(), order=st.booleans(), broadcast=st.booleans(),
    shared_memory=st.booleans(), aslist=st.booleans())
def eigen(c):
    g = rng(c.seed)

    if not c.hermitian and c.kind == 'degenerate':
        return False

    matrix = fourier(g, c.bands, c.hermitian, c.kind)
    k = g.uniform(-7, 7, c.kshape)
    k0 = k.copy()
    points = c.kshape[:max(1, len(c.kshape) - 1)]

    result = dispersion.dispersion(matrix, k.tolist() if c.aslist else k,
        vectors=c.vectors, gauge=c.gauge, order=c.order, hermitian=c.hermitian,
        broadcast=c.broadcast, shared_memory=c.shared_memory)

    equal(k, k0, 'list of k points modified')

    if not c.vectors and not c.order:
        result = [result]

    equal(len(result), 1 + c.vectors + c.order, 'number of results')

    v = result[0]
    V = result[1] if c.vectors else None
    o = result[-1] if c.order else None

    equal(v.shape, tuple(points) + (c.bands,), 'shape of eigenvalues')
    equal(v.dtype.kind, 'f' if c.hermitian else 'c', 'type of eigenvalues')

    if c.vectors:
        equal(V.shape, tuple(points) + (c.bands, c.bands), 'shape of vectors')

    if c.order:
        equal(o.shape, v.shape, 'shape of order')

    kflat = k.reshape((int(np.prod(points)), -1))
    v = np.reshape(v, (-1, c.bands))

    if c.vectors:
        V = np.reshape(V, (-1, c.bands, c.bands))

    if c.order:
        o = np.reshape(o, (-1, c.bands))

    for i, x in enumerate(kflat):
        H = matrix(*x)

        # sorted eigenvalues:

        if c.hermitian:
            ref = np.linalg.eigvalsh(H)
        else:
            ref = np.sort(np.linalg.eigvals(H))

        if c.order:
            equal(np.sort(o[i]), np.arange(c.bands), 'not a permutation')

            ref = ref[o[i]]

        close(v[i], ref, 'eigenvalues', tol=1e-9)

        # eigenvectors:

        if c.vectors:
            close(H.dot(V[i]), V[i] * v[i], 'eigenvectors', tol=1e-7)
            close(np.linalg.norm(V[i], axis=0), np.ones(c.bands), 'norm')

            if c.hermitian:
                close(V[i].T.conj().dot(V[i]), np.eye(c.bands), 'unitarity')

            if c.gauge:
                for n in range(c.bands):
                    size = abs(V[i, :, n])
                    large = V[i, size > size.max() - 1e-12, n]

                    check(np.any((abs(large.imag) < 1e-12) & (large.real > 0)),
                        'largest component not real', large=large)

    return c.bands > 1 and len(kflat) > 1


@P.sub('rotate', quick=7580, seed=seeds, nat=sizes(1, 3, 6),
    angle=st.sampled_from([60, 90, 120]), nk=sizes(1, 6, 12),
    dim=st.integers(2, 3))
def rotate(c):
    """Eigenvectors are rotated by the negative angle of the wave vector."""

    g = rng(c.seed)
    matrix = fourier(g, 3 * c.nat)
    k = g.uniform(-9, 9, (c.nk, c.dim))

    v0, V0 = dispersion.dispersion(matrix, k, vectors=True)
    v, V = dispersion.dispersion(matrix, k, angle=c.angle, vectors=True,
        rotate=True)

    close(v, v0, 'eigenvalues')

    phi = np.deg2rad(c.angle)
    b = np.array([[1, 0], [np.cos(phi), np.sin(phi)]])

    for i in range(c.nk):
        # first Brillouin zone:

        best = min((k[i, :2] + 2 * np.pi * np.array(m)
            for m in itertools.product(range(-4, 5), repeat=2)),
            key=lambda q: np.linalg.norm(q.dot(b)))
        x = best.dot(b)
        x /= np.linalg.norm(x)

        # directions of rotated eigenvectors relative to first reciprocal
        # lattice vector; the overall orientation (the direction of the latter)
        # is determined by longitudinal and transverse components:

        for n in range(3 * c.nat):
            for a in range(c.nat):
                e0 = V0[i, 3 * a:3 * a + 3, n]
                e = V[i, 3 * a:3 * a + 3, n]

                close(e[2], e0[2], 'out-of-plane component')

                # invariants of rotation:

                close(abs(e[0]) ** 2 + abs(e[1]) ** 2,
                    abs(e0[0]) ** 2 + abs(e0[1]) ** 2, 'length')
                close((e[0].conj() * e[1]).imag, (e0[0].conj() * e0[1]).imag,
                    'chirality')

        # the Cartesian axes are those of elphmod's standard primitive vectors:

        a1, a2 = elphmod.bravais.translations(180 - c.angle)
        b1, b2 = elphmod.bravais.reciprocals(a1, a2)
        y = best[0] * b1 + best[1] * b2
        y /= np.linalg.norm(y)

        for a in range(c.nat):
            e0 = V0[i, 3 * a:3 * a + 3]
            e = V[i, 3 * a:3 * a + 3]

            close(e[0], y[0] * e0[0] + y[1] * e0[1], 'longitudinal component')
            close(e[1], y[0] * e0[1] - y[1] * e0[0], 'transverse component')

    return True


@P.sub('sample', quick=2400, seed=seeds, kshape=kshapes | st.sampled_from([[6],
    [3, 5], [2, 2, 6]]),
    tail=st.lists(st.integers(1, 3), max_size=3), kind=st.sampled_from(
    ['complex', 'real']), scale=st.sampled_from([None, 0.5, 2.0]))
def sample(c):
    g = rng(c.seed)
    a = g.normal(size=c.tail) + 1j * g.normal(size=c.tail)
    r = g.normal(size=6)

    def function(q1=0, q2=0, q3=0, k1=0, k2=0, k3=0, scale=1.0):
        x = np.exp(1j * r.dot([q1, q2, q3, k1, k2, k3])) * a * scale

        return np.array(x.real if c.kind == 'real' else x)

    k = g.uniform(-7, 7, c.kshape)
    points = tuple(c.kshape[:max(1, len(c.kshape) - 1)])
    options = {} if c.scale is None else dict(scale=c.scale)

    result = dispersion.sample(function, k, **options)

    ref = np.array([function(*x, **options) for x in k.reshape((
        int(np.prod(points)), -1))])

    equal(result.dtype.kind, ref.dtype.kind, 'type')
    equal(result, ref.reshape(points + tuple(c.tail)), 'samples')

    return ref.size > 1


def smooth(g, bands, points, crossing, real=False):
    """Energies and eigenvectors of bands with known connectivity."""

    s = np.linspace(0, 1, points)

    E = np.empty((points, bands))

    for n in range(bands):
        p = g.normal(size=4)
        E[:, n] = p[0] + p[1] * s + p[2] * np.cos(3 * s) + p[3] * np.sin(5 * s)

    if not crossing:
        E = np.sort(E, axis=1) + np.arange(bands)

    # eigenvectors change by up to half a revolution, but slowly:

    A = g.normal(size=(bands, bands)) + 1j * g.normal(size=(bands, bands))

    if real:
        A = A.real

    A = A - A.T.conj()
    A /= max(1e-10, np.linalg.norm(A, 2))

    V0 = np.linalg.qr(g.normal(size=(bands, bands)))[0].astype(complex)
    V = np.array([scipy.linalg.expm(x * np.pi / 2 * A).dot(V0) for x in s])

    return E, V


@P.sub('connectivity', quick=12230, seed=seeds, bands=sizes(1, 6, 12),
    points=sizes(8, 40, 120), crossing=st.booleans(), touch=st.integers(0, 2),
    by_mean=st.booleans(), dv=st.booleans(), status=st.booleans(),
    phase=st.booleans(), full=st.booleans())
def connectivity(c):
    """Band order follows smooth bands through (exact) crossings."""

    g = rng(c.seed)
    E, V = smooth(g, c.bands, c.points, c.crossing)

    # exact degeneracies at isolated points:

    for n in range(c.touch):
        if c.bands > 1 and c.crossing:
            i = g.integers(1, c.points - 1)
            a, b = g.permutation(c.bands)[:2]
            E[:, b] += E[i, a] - E[i, b]
            E[i, b] = E[i, a]

    gaps = np.array([np.diff(np.sort(x)).min(initial=1.0) for x in E])
    exact = gaps < 1e-13

    if gaps[0] < 1e-6 or np.any(gaps[~exact] < 1e-6):
        return False # near degeneracies have no well-defined eigenvectors

    # eigenvectors of degenerate states are arbitrary combinations:

    W = V.copy()

    for i in np.flatnonzero(exact):
        for x in set(E[i]):
            some = np.flatnonzero(E[i] == x)

            U = np.linalg.qr(g.normal(size=(len(some),) * 2) + 1j
                * g.normal(size=(len(some),) * 2))[0]
            W[i][:, some] = W[i][:, some].dot(U)

    if c.phase:
        W = W * np.exp(1j * g.uniform(-np.pi, np.pi, (c.points, 1, c.bands)))

    # tracking is possible if the overlap with the last nondegenerate point
    # exceeds all other overlaps:

    last = 0

    for i in range(1, c.points):
        if not exact[i]:
            if np.any(abs(np.sum(V[last].conj() * V[i], axis=0)) ** 2 < 0.55):
                return False

            last = i

    perm = np.argsort(E, axis=1, kind='stable') # state -> band

    v = np.take_along_axis(E, perm, 1)
    X = np.take_along_axis(W, perm[:, None], 2)

    options = dict(by_mean=c.by_mean, status=c.status)

    if c.dv:
        steps = []
        last = 0

        for i in range(1, c.points):
            steps.append(abs(E[i] - E[last]).max())

            if not exact[i]:
                last = i

        options['dv'] = max(steps) * 1.001 + 1e-6

    if c.full:
        # via matrix function

        def matrix(i=0):
            i = int(round(i))
            return (W[i] * E[i]).dot(W[i].T.conj())

        if exact.any():
            options['eps'] = 1e-8

        vo, o = dispersion.dispersion(matrix, np.arange(c.points), order=True,
            **options)

        close(vo, np.take_along_axis(v, o, 1), 'order applied')
    else:
        v0 = v.copy()
        X0 = X.copy()

        o = dispersion.band_order(v, X, **options)

        equal(v, v0, 'eigenvalues modified')
        equal(X, X0, 'eigenvectors modified')

    equal(np.sort(o, axis=1), np.tile(np.arange(c.bands), (c.points, 1)),
        'not a permutation')

    # band of each ordered state:

    band = np.take_along_axis(perm, o, 1)

    for i in range(c.points):
        if not exact[i]:
            equal(band[i], band[0], 'connectivity', i=i)

    if c.by_mean:
        mean = np.take_along_axis(v, o, 1).sum(axis=0)

        check(np.all(np.diff(mean) > -1e-9), 'mean', mean=mean)
    else:
        equal(o[0], np.arange(c.bands), 'order at first point')

    # dv forbids jumps:

    return c.bands > 1


@P.sub('jumps', quick=6000, seed=seeds, bands=st.integers(2, 5),
    points=st.integers(2, 12))
def jumps(c):
    """Bands that differ by more than dv are not connected if avoidable."""

    g = rng(c.seed)

    E = np.arange(c.bands) + g.uniform(-0.2, 0.2, (c.points, c.bands))
    U = np.linalg.qr(g.normal(size=(c.points, c.bands, c.bands)))[0]

    o = dispersion.band_order(E, U, dv=0.5, status=False)

    # overlaps of forbidden pairs count as zero:

    equal(o, np.tile(np.arange(c.bands), (c.points, 1)), 'jump')

    return True


@P.sub('wedge', quick=12000, seed=seeds, size=sizes(1, 9, 13),
    angle=st.sampled_from([60, 90, 120]), bands=st.integers(1, 4),
    vectors=st.booleans(), nosym=st.booleans(), broadcast=st.booleans(),
    vary=st.booleans(), shared_memory=st.booleans())
def wedge(c):
    """Order on full mesh follows symmetric bands."""

    g = rng(c.seed)

    shells = [
        lambda x, y: np.cos(x) + np.cos(y) + (np.cos(x - y) if c.angle == 120
            else np.cos(x + y) if c.angle == 60 else 0),
        lambda x, y: 2 * np.cos(x) * np.cos(y) if c.angle == 90 else
            np.cos(x + y) + np.cos(2 * x - y) + np.cos(2 * y - x)
            if c.angle == 120 else
            np.cos(x - y) + np.cos(2 * x + y) + np.cos(2 * y + x),
        lambda x, y: np.cos(2 * x) + np.cos(2 * y) + (np.cos(2 * x - 2 * y)
            if c.angle == 120 else np.cos(2 * x + 2 * y) if c.angle == 60
            else 0),
        ]

    t = g.normal(size=(c.bands, 4))
    U = np.linalg.qr(g.normal(size=(c.bands, c.bands)) + 1j
        * g.normal(size=(c.bands, c.bands)))[0]
    A = g.normal(size=(c.bands, c.bands))
    A = A - A.T
    A *= 0.02 / max(1e-10, np.linalg.norm(A, 2))

    def energies(x=0, y=0):
        return t[:, 0] + t[:, 1:].dot([shell(x, y) for shell in shells])

    def matrix(x=0, y=0, z=0):
        V = U

        if c.vary:
            V = U.dot(scipy.linalg.expm(shells[0](x, y) * A))

        return (V * energies(x, y)).dot(V.T.conj())

    k = 2 * np.pi * np.arange(c.size) / c.size
    ref = np.array([[energies(x, y) for y in k] for x in k])

    if c.bands > 1 and np.diff(np.sort(ref), axis=-1).min() < 1e-6:
        return False

    options = dict(angle=c.angle, order=True, vectors=c.vectors,
        broadcast=c.broadcast, shared_memory=c.shared_memory)

    if c.nosym:
        result = dispersion.dispersion_full_nosym(matrix, c.size, **options)
    else:
        result = dispersion.dispersion_full(matrix, c.size, **options)

    equal(len(result), 2 + c.vectors, 'number of results')

    v = result[0]
    o = result[-1]

    equal(np.sort(o, axis=-1), np.tile(np.arange(c.bands), (c.size, c.size,
        1)), 'not a permutation')

    close(v, np.take_along_axis(np.sort(ref), o, -1), 'order')

    # assign bands at Gamma:

    assign = [int(abs(ref[0, 0] - x).argmin()) for x in v[0, 0]]

    equal(sorted(assign), list(range(c.bands)), 'bands at Gamma')

    close(v, ref[..., assign], 'bands not connected', tol=1e-7)

    if c.vectors:
        V = result[1]

        # eigenvectors are those at one of the symmetry-equivalent points (or
        # the same point), where the matrix is the same for this model:

        for i, j in np.ndindex(c.size, c.size):
            H = matrix(k[i], k[j])

            close(H.dot(V[i, j]), V[i, j] * v[i, j], 'eigenvectors', tol=1e-7)

    return c.bands > 1 and c.size > 1


@P.sub('mapping', quick=6000, seed=seeds, bands=sizes(1, 7, 12),
    shape=st.lists(st.integers(1, 3), max_size=3),
    noise=st.sampled_from([0.0, 0.05]))
def mapping(c):
    """Similar sets of eigenvectors are mapped onto each other."""

    g = rng(c.seed)
    shape = tuple(c.shape)

    V1 = np.linalg.qr(g.normal(size=(*shape, c.bands, c.bands)) + 1j
        * g.normal(size=(*shape, c.bands, c.bands)))[0]

    perm = np.argsort(g.random(size=(*shape, c.bands)), axis=-1)
    V2 = np.empty_like(V1)

    for i in np.ndindex(*shape):
        for n in range(c.bands):
            V2[i][:, perm[i][n]] = V1[i][:, n] * np.exp(1j * g.uniform(-3, 3))

    V2 = np.linalg.qr(V2 + c.noise / np.sqrt(c.bands) * g.uniform(-1, 1,
        V2.shape))[0]

    if any(abs(np.sum(V1[i][:, n].conj() * V2[i][:, perm[i][n]])) ** 2 < 0.6
            for i in np.ndindex(*shape) for n in range(c.bands)):
        return False

    equal(dispersion.map_dispersions(V1, V2), perm, 'mapping')

    return c.bands > 1


@P.sub('unfolding', quick=9600, seed=seeds, size=st.integers(1, 3),
    N=gen.supercells(max_cells=6), nk=st.integers(1, 3),
    kind=st.sampled_from(['pristine', 'defect', 'random']),
    sgn=st.sampled_from([-1, 1]), blocks=st.booleans(), cart=st.booleans())
def unfolding(c):
    g = rng(c.seed)
    N = gen.matrix(c.N)

    el = gen.el_model(g, c.size)
    sc = el.supercell(*gen.args(c.N))
    R = np.array(sc.cells)
    ncells = len(R)
    bands = ncells * c.size

    # all points folded onto random points of supercell:

    K = g.uniform(-3, 3, (c.nk, 3))
    k = np.array([x for y in K for x in gen.folded(y, N)])
    K = np.repeat(K, ncells, axis=0)

    U0 = []
    U = []
    v0 = []
    v = []

    if c.kind == 'defect':
        defect = g.normal(size=(bands, bands))
        defect = defect + defect.T
    else:
        defect = 0.0

    for i in range(len(k)):
        for x, y in zip((v0, U0), np.linalg.eigh(el.H(*k[i]))):
            x.append(y)

        if i % ncells == 0:
            if c.kind == 'random':
                u = np.linalg.qr(g.normal(size=(bands, bands)) + 1j
                    * g.normal(size=(bands, bands)))[0]
                e = np.zeros(bands)
            else:
                e, u = np.linalg.eigh(sc.H(*K[i]) + defect)

        v.append(e)
        U.append(u)

    v0, U0, v, U = map(np.array, (v0, U0, v, U))

    a = g.normal(size=(3, 3))
    kx, Rx = (k.dot(a), R.dot(np.linalg.inv(a).T)) if c.cart else (k, R)

    blocks = {}

    if c.blocks:
        perm = g.permutation(bands) # new order of orbitals of supercell
        inv = np.argsort(perm)
        U = U[:, perm]
        blocks['blocks'] = [inv[n * c.size:(n + 1) * c.size]
            for n in range(ncells)]

        perm0 = g.permutation(c.size)
        U0 = U0[:, perm0]
        blocks['blocks0'] = [np.argsort(perm0)] * ncells

    if c.sgn > 0:
        U0, U = U0.conj(), U.conj()
        blocks['sgn'] = 1

    w = dispersion.unfolding_weights(list(kx), list(Rx), U0, U, **blocks)

    equal(w.shape, (len(k), bands), 'shape')

    check(np.all((w > -1e-12) & (w < 1 + 1e-9)), 'range of weights')

    # every state is distributed over the folded points completely:

    close(w.reshape((c.nk, ncells, bands)).sum(axis=1), np.ones((c.nk, bands)),
        'weights of state')

    # number of states per point:

    close(w.sum(axis=1), np.full(len(k), float(c.size)), 'number of states')

    # weights restore original band structure:

    if c.kind == 'pristine':
        for p in 1, 2, 3:
            close((w * v ** p).sum(axis=1), (v0 ** p).sum(axis=1), 'moments',
                tol=1e-7)

    # explicit projection:

    for i in range(len(k)):
        B = np.zeros((bands, c.size), dtype=complex)

        for n in range(ncells):
            for m in range(c.size):
                x = blocks['blocks'][n][m] if c.blocks else n * c.size + m
                y = blocks['blocks0'][n][m] if c.blocks else m

                B[x] += (np.exp(-c.sgn * 1j * k[i].dot(R[n]))
                    * U0[i, y] / np.sqrt(ncells))

        close(w[i], (abs(B.T.conj().dot(U[i])) ** 2).sum(axis=0), 'projection')

    return ncells > 1


@P.sub('polarization', quick=2400, seed=seeds, nat=sizes(1, 3, 6),
    angle=st.sampled_from([60, 90, 120]), nq=sizes(1, 5, 9),
    dim=st.integers(2, 3), zero=st.booleans())
def polarization(c):
    g = rng(c.seed)
    n = 3 * c.nat
    q = g.uniform(-3, 3, (c.nq, c.dim))

    if c.zero:
        q[0, :2] = 0.0

    e = np.linalg.qr(g.normal(size=(c.nq, n, n)) + 1j
        * g.normal(size=(c.nq, n, n)))[0]

    q0, e0 = q.copy(), e.copy()

    mode = elphmod.ph.polarization(e, q, angle=c.angle)

    equal(q, q0, 'path modified')
    equal(e, e0, 'eigenvectors modified')
    equal(mode.shape, (c.nq, n, 3), 'shape')

    a1, a2 = elphmod.bravais.translations(180 - c.angle)
    A = np.array([a1, a2])

    for i in range(c.nq):
        # q . r = q1 r1 + q2 r2

        x = np.linalg.solve(A, q[i, :2])
        size = np.linalg.norm(x)

        for m in range(n):
            u = e[i, :, m].reshape((c.nat, 3))

            if size < 1e-10:
                L = T = (abs(u[:, :2]) ** 2).sum() / 2
            else:
                L = (abs(u[:, :2].dot(x / size)) ** 2).sum()
                T = (abs(u[:, 0] * x[1] - u[:, 1] * x[0]) ** 2).sum() / size ** 2

            close(mode[i, m], [L, T, (abs(u[:, 2]) ** 2).sum()],
                'polarization')

    w2 = g.normal(size=(3, 4)) * 10.0 ** g.integers(-8, 3)
    w2[0, 0] = 0.0
    w = elphmod.ph.sgnsqrt(w2)

    close(w * abs(w), w2, 'signed square root', tol=0, rtol=1e-12)

    return True
