"""S05: Wigner-Seitz cells are exact."""

import itertools

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)

P = Property('S05',
    'Random and symmetric lattices, meshes, and basis positions, nearest '
    'images found by brute force. Non-trivial: some image has a degeneracy '
    'larger than one or the basis has more than one position.',
    ['Nearest images lie within the searched range of supercells (parameter '
    'nsc), cases where they do not are skipped or searched with larger nsc.'])

meshes = st.sampled_from([[1, 1, 1], [2, 1, 1], [2, 2, 1], [3, 1, 1],
    [2, 2, 2], [3, 2, 1], [1, 4, 1], [3, 3, 1], [1, 2, 3], [4, 4, 1],
    [2, 3, 2], [5, 1, 1], [6, 6, 1], [9, 1, 1], [4, 3, 3], [1, 1, 12]])

# positions on high-symmetry sites to provoke degenerate images
sites = st.sampled_from([[0, 0, 0], [0.5, 0.5, 0.5], [0.5, 0, 0], [0, 0.5, 0],
    [1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, 0.25], [0.25, 0.25, 0.25], [0.1, 0.7,
    0.3], [-0.25, 0.4, 0.0], [0.9, 0.9, 0.9]])

basis = st.lists(sites, min_size=1, max_size=3)


def brute(nk, a, r1, r2, eps, wide=4):
    """{R: (degeneracy, length)} for each pair."""

    nk = np.array(nk)
    M = np.array(list(itertools.product(range(-wide, wide + 1), repeat=3)))
    pairs = {}

    for i, x in enumerate(r1):
        for j, y in enumerate(r2):
            found = pairs[i, j] = {}

            for m in np.ndindex(*nk):
                R = M * nk + np.array(m)
                d = np.linalg.norm(R.dot(a) + y - x, axis=1)
                best = np.where(d < d.min() + eps)[0]

                for b in best:
                    found[tuple(int(z) for z in R[b])] = len(best), d.min()

    return pairs


@P.sub('wigner', quick=1360, nk=meshes, a=gen.lattices(), tau=basis,
    tau2=st.one_of(st.none(), basis), sgn=st.sampled_from([1, -1]),
    nsc=st.sampled_from([2, 2, 3]), default=st.booleans(), jitter=seeds,
    generic=st.booleans())
def wigner(c):
    a = np.array(c.a)
    r1 = np.array(c.tau).dot(a)
    r2 = r1 if c.tau2 is None else np.array(c.tau2).dot(a)

    if c.generic:
        g = rng(c.jitter)
        r1 = r1 + g.uniform(-0.3, 0.3, r1.shape)
        r2 = r1 if c.tau2 is None else r2 + g.uniform(-0.3, 0.3, r2.shape)

    if not gen.searchable(c.nk, a, r1, r2, nsc=c.nsc):
        return False

    ref = brute(c.nk, a, r1, r2, 1e-7)

    # no almost degenerate images (rounding)

    loose = brute(c.nk, a, r1, r2, 1e-5)

    if {p: set(x) for p, x in ref.items()} != {p: set(x) for p, x
            in loose.items()}:
        return False

    kwargs = {}

    if c.tau2 is not None:
        kwargs['tau2'] = r2
    if c.nsc != 2 or not c.default:
        kwargs['nsc'] = c.nsc
    if c.sgn != 1 or not c.default:
        kwargs['sgn'] = c.sgn

    irvec, ndegen, wslen = elphmod.bravais.wigner(*c.nk, a, r1, **kwargs)

    count = len(irvec)
    equal(irvec.shape, (count, 3), 'wigner: irvec')
    equal(ndegen.shape, (count, len(r1), len(r2)), 'wigner: ndegen')
    equal(wslen.shape, (count, len(r1), len(r2)), 'wigner: wslen')

    index = {tuple(map(int, R)): n for n, R in enumerate(irvec)}

    equal(len(index), count, 'wigner: repeated lattice vectors')
    equal(set(index), set().union(*ref.values()), 'wigner: lattice vectors')

    for (i, j), found in ref.items():
        for R, n in index.items():
            d, l = found.get(R, (0, 0.0))
            equal(int(ndegen[n, i, j]), d, 'wigner: degeneracy')

            if d:
                close(wslen[n, i, j], l, 'wigner: length')

        total = {}

        for R, n in index.items():
            if ndegen[n, i, j]:
                m = tuple(np.array(R) % c.nk)
                total[m] = total.get(m, 0) + 1 / ndegen[n, i, j]

        equal(len(total), int(np.prod(c.nk)), 'wigner: missing mesh points')
        close(np.array(list(total.values())), np.ones(len(total)),
            'wigner: weights')

    return ndegen.max() > 1 or len(r1) > 1


@P.sub('short_range_model', quick=2400, seed=seeds, nk=meshes,
    a=gen.lattices(), tau=basis, sgn=st.sampled_from([1, -1]),
    divide=st.booleans(), ncart=st.sampled_from([0, 1, 3]),
    real=st.booleans())
def short_range_model(c):
    g = rng(c.seed)
    a = np.array(c.a)
    r = np.array(c.tau).dot(a)

    if not gen.searchable(c.nk, a, r, r):
        return False

    ref = brute(c.nk, a, r, r, 1e-7)

    if {p: set(x) for p, x in ref.items()} != {p: set(x) for p, x
            in brute(c.nk, a, r, r, 1e-5).items()}:
        return False

    shape = (len(r), len(r), *c.nk)
    n = max(c.ncart, 1)

    if c.ncart:
        shape += (n, n)

    data = g.standard_normal(shape) if c.real else gen.cplx(g, shape)
    data0 = data.copy()

    irvec, const, wslen = elphmod.bravais.short_range_model(data, a, r,
        sgn=c.sgn, divide_ndegen=c.divide)

    equal(data, data0, 'short_range_model: input changed')
    equal(const.shape, (len(irvec), len(r) * n, len(r) * n),
        'short_range_model: shape')

    data = data0.reshape((len(r), len(r), *c.nk, n, n))
    const = const.reshape((len(irvec), len(r), n, len(r), n))

    equal(set(tuple(map(int, R)) for R in irvec), set().union(*ref.values()),
        'short_range_model: lattice vectors')

    for R, x in zip(irvec, const):
        R = tuple(map(int, R))
        m = tuple(c.sgn * np.array(R) % c.nk)

        for (i, j), found in ref.items():
            y = data[(i, j, *m)]

            if c.divide:
                y = y / found[R][0] if R in found else 0 * y

            close(x[i, :, j], y, 'short_range_model: constants')

    return np.prod(c.nk) > 1


@P.sub('squared_distance', quick=3600, k=ints(-30, 30, 2),
    angle=st.sampled_from([60, 90, 120]), f=st.floats(-3, 3))
def squared_distance(c):
    a1 = np.array([1.0, 0.0])
    a2 = np.array([np.cos(c.angle * np.pi / 180), np.sin(c.angle * np.pi / 180)])

    d = elphmod.bravais.squared_distance(*c.k, angle=c.angle)
    check(isinstance(d, int), 'squared_distance: not exact for integers')
    close(float(d), np.sum((c.k[0] * a1 + c.k[1] * a2) ** 2),
        'squared_distance')

    if c.angle == 60:
        equal(elphmod.bravais.squared_distance(*c.k), d,
            'squared_distance: default angle')

    x = c.k[0] + c.f, c.k[1] - c.f

    close(elphmod.bravais.squared_distance(*x, angle=c.angle),
        np.sum((x[0] * a1 + x[1] * a2) ** 2), 'squared_distance')

    return any(c.k)


shifts = st.sampled_from([[0, 0], [0, 0], [0, 0], [1 / 3, 1 / 3], [1 / 3, 2
    / 3], [-1 / 3, -2 / 3], [0.5, 0.5], [0.3, -0.2], [-0.9, -0.8], [2.0, 1.0],
    [1.5, -2.5], [-3.2, 0.1]])


def images2d(k, nk, angle, d, wide):
    a1 = np.array([1.0, 0.0])
    a2 = np.array([np.cos(angle * np.pi / 180), np.sin(angle * np.pi / 180)])

    points = [(k[0] % nk + m * nk, k[1] % nk + n * nk)
        for m in range(-wide, wide + 1) for n in range(-wide, wide + 1)]

    D = np.array([np.sum(((x - d[0]) * a1 + (y - d[1]) * a2) ** 2)
        for x, y in points])

    return {p for p, z in zip(points, D) if z < D.min() + 1e-6}


@P.sub('to_Voronoi', quick=8890, k=ints(-20, 20, 2), nk=sizes(1, 12, 40),
    angle=st.sampled_from([60, 90, 120]), shift=shifts, scale=st.booleans())
def to_Voronoi(c):
    d = list(c.shift)

    if c.scale: # boundary points of the shifted cell
        d = [x * c.nk for x in d]

    kwargs = dict(angle=c.angle)

    if c.angle == 60:
        kwargs = {}

    exact = not any(c.shift)

    if not exact:
        kwargs.update(dk1=d[0], dk2=d[1], epsilon=1e-6)

    result = elphmod.bravais.to_Voronoi(*c.k, c.nk, **kwargs)

    equal(set(map(tuple, result)), images2d(c.k, c.nk, c.angle, d, 6
        if exact else 5 + max(6, int(max(map(abs, d))) // c.nk * 2)),
        'to_Voronoi')

    return len(result) > 1


@P.sub('wigner_2d', quick=610, nk=sizes(1, 9, 24),
    angle=st.sampled_from([60, 90, 120]), shift=shifts)
def wigner_2d(c):
    kwargs = dict(angle=c.angle)

    if c.angle == 120:
        kwargs = {}

    if any(c.shift):
        kwargs.update(dk1=c.shift[0], dk2=c.shift[1], epsilon=1e-6)

    irvec, ndegen, wslen = elphmod.bravais.wigner_2d(c.nk, **kwargs)

    ref = {}

    for k in itertools.product(range(c.nk), repeat=2):
        images = images2d(k, c.nk, c.angle, c.shift, 7)
        for i in images:
            ref[i] = len(images)

    equal(len(irvec), len(ref), 'wigner_2d: number of points')
    equal(dict(zip(map(tuple, irvec), ndegen)), ref, 'wigner_2d: degeneracies')
    close(sum(1 / d for d in ndegen), float(c.nk ** 2), 'wigner_2d: weights')

    a = np.array([[1.0, 0.0], [np.cos(c.angle * np.pi / 180),
        np.sin(c.angle * np.pi / 180)]])

    close(np.array(wslen), np.linalg.norm(np.array(irvec).dot(a), axis=1),
        'wigner_2d: lengths')

    # agrees with three-dimensional version

    if not any(c.shift) and c.nk < 7:
        at = np.zeros((3, 3))
        at[:2, :2] = a
        at[2, 2] = 10.0

        R, d, l = elphmod.bravais.wigner(c.nk, c.nk, 1, at, np.zeros((1, 3)))

        equal({tuple(map(int, x[:2])): int(y[0, 0]) for x, y in zip(R, d)},
            {tuple(map(int, x)): y for x, y in zip(irvec, ndegen)},
            'wigner_2d: 3D version')

    return c.nk > 1
