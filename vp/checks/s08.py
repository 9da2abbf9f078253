"""S08: Brillouin-zone symmetry reduction is lossless."""

import itertools

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)

P = Property('S08',
    'Random mesh sizes 1-12, angles 60, 90 and 120 degrees, random invariant '
    'or partially invariant data and Hamiltonians. Non-trivial: mesh with '
    'more than one point and (data) with at least one point that is not '
    'given.',
    ['Wedge data and eigenvectors belong to invariant quantities.'])

angles = st.sampled_from([60, 90, 120])
meshsizes = st.integers(1, 12)

metric = {60: [[2, 1], [1, 2]], 90: [[2, 0], [0, 2]], 120: [[2, -1], [-1, 2]]}

operations = {}

for _angle, _m in metric.items():
    operations[_angle] = [W for W in (np.array(w).reshape((2, 2))
        for w in itertools.product([-1, 0, 1], repeat=4))
        if np.array_equal(W.T.dot(_m).dot(W), _m)]

assert [len(operations[x]) for x in (60, 90, 120)] == [12, 8, 12]


def orbit(k, nk, angle):
    return {tuple(int(x) % nk for x in W.dot(k)) for W in operations[angle]}


def orbits(nk, angle):
    seen = set()
    result = []

    for k in np.ndindex(nk, nk):
        if k not in seen:
            o = orbit(k, nk, angle)
            seen |= o
            result.append((k, o))

    return result


@P.sub('orbits', quick=6000, nk=sizes(1, 24, 48), angle=angles,
    k=st.tuples(st.integers(0, 1000), st.integers(0, 1000)),
    shift=st.tuples(st.integers(-3, 3), st.integers(-3, 3)))
def orbits_(c):
    nk = c.nk
    k = tuple(x % nk for x in c.k)

    equal(elphmod.bravais.images(*k, nk=nk, angle=c.angle),
        orbit(k, nk, c.angle), 'images', k=k)

    equal(elphmod.bravais.images(k[0] + c.shift[0] * nk,
        k[1] + c.shift[1] * nk, nk, c.angle), orbit(k, nk, c.angle),
        'images of equivalent point', k=k)

    irr = elphmod.bravais.irreducibles(nk, angle=c.angle)

    equal(set(irr), {k for k, o in orbits(nk, c.angle)}, 'irreducible points')

    if c.angle == 60:
        equal(elphmod.bravais.irreducibles(nk), irr, 'default angle')
        equal(elphmod.bravais.images(*k, nk=nk), orbit(k, nk, 60),
            'default angle')

    # weights as used for sums over the Brillouin zone

    equal(sum(len(elphmod.bravais.images(*k, nk=nk, angle=c.angle))
        for k in irr), nk * nk, 'sum of weights')

    return nk > 1


def cartesian(angle):
    """Integer representation of rotation by (multiples of) angle."""

    phi = np.radians(angle)
    b = np.array([[1.0, 0.0], [np.cos(phi), np.sin(phi)]])
    # orient such that b2 points in y direction
    rot = np.pi / 2 - phi
    R = np.array([[np.cos(rot), -np.sin(rot)], [np.sin(rot), np.cos(rot)]])
    return b.dot(R.T)


def operation(angle, reflect, degrees):
    b = cartesian(angle)
    phi = np.radians(degrees)
    U = np.array([[np.cos(phi), -np.sin(phi)], [np.sin(phi), np.cos(phi)]])

    if reflect:
        U = np.diag([-1.0, 1.0]).dot(U)

    # k' = k . b . U^T . inv(b)
    W = b.dot(U.T).dot(np.linalg.inv(b)).T
    Wi = np.round(W).astype(int)
    assert np.allclose(W, Wi)
    return Wi


@P.sub('symmetries', quick=6000, nk=sizes(1, 9, 14), angle=angles, seed=seeds,
    group=st.lists(st.integers(0, 11), max_size=2), unity=st.booleans(),
    eps=st.sampled_from([0.0, 0.0, 1e-3]), nan=st.booleans(),
    levels=st.sampled_from([2, 3, 100]), signs=st.booleans())
def symmetries(c):
    """Reported operations are exactly those that leave the data invariant."""

    g = rng(c.seed)
    nk = c.nk
    ops = operations[c.angle]

    # invariance under the subgroup generated by some operations

    data = g.integers(0, c.levels, (nk, nk)).astype(float)

    if c.signs: # equal magnitudes of different sign
        data[data == 0] = 1.0
        data *= g.choice([-1, 1], (nk, nk))

    label = np.arange(nk * nk).reshape((nk, nk))

    changed = True
    while changed:
        changed = False
        for i in c.group:
            W = ops[i % len(ops)]
            for k in np.ndindex(nk, nk):
                K = tuple(W.dot(k) % nk)
                low = min(label[k], label[K])
                if label[k] != low or label[K] != low:
                    label[k] = label[K] = low
                    changed = True

    data = data.ravel()[label]

    if c.eps:
        data = data + g.uniform(-0.4, 0.4, (nk, nk)) * c.eps

    if c.nan:
        data[g.random((nk, nk)) < 0.3] = np.nan

    copy = data.copy()

    found = {(bool(r), int(a) % 360): image for (r, a), image in
        elphmod.bravais.symmetries(data, epsilon=c.eps, unity=c.unity,
            angle=c.angle)}

    check(np.array_equal(copy, data, equal_nan=True), 'data modified')

    step = 90 if c.angle == 90 else 60
    number = 0

    for reflect in False, True:
        for degrees in range(0, 360, step):
            W = operation(c.angle, reflect, degrees)
            image = np.array([[W.dot((i, j)) % nk for j in range(nk)]
                for i in range(nk)])

            diff = np.abs(data - data[image[..., 0], image[..., 1]])
            diff = diff[~np.isnan(diff)]
            symmetric = bool(np.all(diff <= c.eps)) if len(diff) else True

            if not reflect and not degrees and not c.unity:
                symmetric = False

            equal((reflect, degrees) in found, symmetric,
                'symmetry (%s, %s)' % (reflect, degrees))

            if symmetric:
                number += 1
                equal(np.asarray(found[reflect, degrees]), image,
                    'mapping of (%s, %s)' % (reflect, degrees))

    equal(len(found), number, 'number of symmetries')

    return nk > 1


def invariant(g, nk, angle, dtype=float):
    data = np.empty((nk, nk), dtype=dtype)

    for k, o in orbits(nk, angle):
        value = g.standard_normal() if dtype is float else gen.cplx(g, ())

        for K in o:
            data[K] = value

    return data


@P.sub('complete', quick=4800, nk=sizes(1, 9, 18), angle=angles, seed=seeds,
    given=st.sampled_from(['irreducible', 'random', 'all', 'orbit']),
    dtype=st.sampled_from(['float', 'complex']))
def complete(c):
    g = rng(c.seed)
    nk = c.nk

    full = invariant(g, nk, c.angle, dict(float=float,
        complex=complex)[c.dtype])
    data = full.copy()

    mask = np.ones((nk, nk), dtype=bool) # missing?

    for k, o in orbits(nk, c.angle):
        o = sorted(o)
        if c.given == 'irreducible':
            mask[k] = False
        elif c.given == 'all':
            mask[:] = False
        elif c.given == 'orbit': # any representative
            mask[o[g.integers(len(o))]] = False
        else: # more than necessary
            for K in g.permutation(len(o))[:g.integers(1, len(o) + 1)]:
                mask[o[K]] = False

    data[mask] = np.nan

    result = elphmod.bravais.complete(data, angle=c.angle)
    result = data if result is None else result

    equal(result, full, 'completed data')

    return bool(mask.any())


@P.sub('complete_k', quick=1440, nq=st.integers(1, 5), m=st.integers(1, 3),
    seed=seeds)
def complete_k(c):
    """Data f(q, k) = f(S q, S k) given for irreducible q and all k."""

    g = rng(c.seed)
    nq = c.nq
    nk = c.nq * c.m
    ops = operations[60]

    # invariant function of both wave vectors

    full = np.full((nq, nq, nk, nk), np.nan)

    for i in np.ndindex(full.shape):
        if np.isnan(full[i]):
            value = g.standard_normal()
            for W in ops:
                full[tuple(W.dot(i[:2]) % nq) + tuple(W.dot(i[2:]) % nk)] \
                    = value

    wedge = np.array([full[q] for q, o in orbits(nq, 60)])

    equal(elphmod.bravais.complete_k(wedge, nq), full, 'completed data')

    return nq > 1


def symmetric_matrix(g, angle, bands, constant):
    """Hermitian matrix invariant under the point group of the lattice.

    Lattice-symmetric functions times fixed Hermitian matrices, which commute
    if `constant`.
    """
    ops = operations[angle]

    # dual action on direct lattice vectors
    dual = [np.linalg.inv(W).T.round().astype(int) for W in ops]

    stars = []
    for R in [(1, 0), (1, 1), (2, 0), (2, 1)]:
        stars.append(np.array(sorted({tuple(W.dot(R)) for W in dual})))

    U = np.linalg.qr(gen.cplx(g, (bands, bands)))[0]

    coeff = []

    for n in range(len(stars) + 1):
        if constant:
            d = g.uniform(-1, 1, bands)
            coeff.append((U * d).dot(U.conj().T))
        else:
            A = gen.cplx(g, (bands, bands))
            coeff.append(A + A.conj().T)

    def matrix(k1=0, k2=0, k3=0):
        M = coeff[0].copy()
        for star, C in zip(stars, coeff[1:]):
            M += C * np.cos(star.dot((k1, k2))).sum()
        return M

    return matrix, U


@P.sub('dispersion', quick=4800, nk=sizes(1, 8, 13), angle=angles, seed=seeds,
    bands=sizes(1, 4, 12), vectors=st.booleans(), order=st.booleans(),
    constant=st.booleans(), nosym=st.booleans())
def dispersion(c):
    g = rng(c.seed)
    nk = c.nk
    matrix, U = symmetric_matrix(g, c.angle, c.bands, c.constant)

    if c.nosym:
        out = elphmod.dispersion.dispersion_full_nosym(matrix, nk,
            vectors=c.vectors, order=c.order, angle=c.angle)
    else:
        out = elphmod.dispersion.dispersion_full(matrix, nk, angle=c.angle,
            vectors=c.vectors, order=c.order)

    if not c.vectors and not c.order:
        out = (out,)

    out = list(out)
    v = out.pop(0)
    equal(v.shape, (nk, nk, c.bands), 'shape of eigenvalues')

    if c.vectors:
        V = out.pop(0)
        equal(V.shape, (nk, nk, c.bands, c.bands), 'shape of eigenvectors')

    if c.order:
        o = out.pop(0)
        equal(o.shape, v.shape, 'shape of order')

    gap = np.inf

    for k in np.ndindex(nk, nk):
        M = matrix(*[2 * np.pi * x / nk for x in k])
        e = np.linalg.eigvalsh(M)
        gap = min(gap, np.diff(e).min(initial=np.inf))

        if c.order:
            equal(sorted(o[k]), list(range(c.bands)), 'order', k=k)
            close(v[k], e[o[k]], 'ordered eigenvalues', k=k)
        else:
            close(v[k], e, 'eigenvalues', k=k)

        if c.vectors:
            close(M.dot(V[k]), V[k] * v[k], 'eigenvectors', tol=1e-7, k=k)
            close(V[k].conj().T.dot(V[k]), np.eye(c.bands), 'unitarity')

    if c.order and c.constant and gap > 1e-6:
        # character of each band must be the same everywhere

        band = [np.argmin([abs(v[0, 0, n] - (U[:, i].conj().dot(
            matrix()).dot(U[:, i])).real) for i in range(c.bands)])
            for n in range(c.bands)]

        for k in np.ndindex(nk, nk):
            M = matrix(*[2 * np.pi * x / nk for x in k])

            for n in range(c.bands):
                e = U[:, band[n]].conj().dot(M).dot(U[:, band[n]]).real
                close(v[k][n], e, 'disentangled band', k=k)

                if c.vectors:
                    close(abs(U[:, band[n]].conj().dot(V[k][:, n])), 1.0,
                        'character of disentangled band', k=k)

    return nk > 1 and (c.bands > 1 or not c.order)


@P.sub('mesh3d', quick=1200, n=st.tuples(*[sizes(1, 4, 7)] * 3), seed=seeds,
    dim=st.integers(1, 3), bands=sizes(1, 3, 7), vectors=st.booleans())
def mesh3d(c):
    """Direct calculation on meshes of any dimension."""

    g = rng(c.seed)
    n = tuple(c.n[:c.dim])
    el = gen.el_model(g, c.bands, 4)

    out = elphmod.dispersion.dispersion_full_nosym(el.H, n, vectors=c.vectors)
    v = out[0] if c.vectors else out

    equal(v.shape, n + (c.bands,), 'shape')

    for k in np.ndindex(*n):
        H = el.H(*[2 * np.pi * x / y for x, y in zip(k, n)])
        close(v[k], np.linalg.eigvalsh(H), 'eigenvalues')

        if c.vectors:
            close(H.dot(out[1][k]), out[1][k] * v[k], 'eigenvectors',
                tol=1e-7)

    return np.prod(n) > 1
