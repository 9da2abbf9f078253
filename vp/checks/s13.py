"""S13: Densities of states and spectral functions are exact."""

import itertools

import numpy as np

import elphmod

from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)

P = Property('S13',
    'Random, smooth, and integer-valued (degenerate corners of triangles) '
    'bands and couplings on meshes of 1 to 8 points per dimension, energies '
    'inside, at the corners of, and outside the band. Non-trivial: band with '
    'at least two different energies (a nonzero number of intersections or '
    'isoline points, respectively).',
    ['Energies of constant triangles are excluded (delta peaks).'])

dos = elphmod.dos


def band(g, N, kind):
    i, j = np.meshgrid(np.arange(N), np.arange(N), indexing='ij')
    x = 2 * np.pi * i / N
    y = 2 * np.pi * j / N

    if kind == 'random':
        return g.uniform(-1, 1, (N, N))

    if kind == 'cos': # rounded as nearly constant triangles are ill-defined
        return np.round(g.normal() * np.cos(x) + g.normal() * np.cos(y)
            + g.normal() * np.cos(x + y) + g.normal() * np.sin(x - y), 7)

    if kind == 'hex':
        return np.round(-np.cos(x) - np.cos(y) - np.cos(x + y), 7)

    if kind == 'int':
        return g.integers(-2, 3, (N, N)).astype(float)

    if kind == 'real int':
        return g.integers(-3, 4, (N, N))

    return g.uniform(-1, 1, (N, N)) * 1e-3 + 7.0


kinds = st.sampled_from(['random', 'cos', 'hex', 'int', 'int', 'real int',
    'narrow'])


def triangles(N):
    """Corners of triangles of hexagonal mesh (not wrapped)."""

    for i in range(N):
        for j in range(N):
            yield (i, j), (i + 1, j), (i, j + 1)
            yield (i + 1, j + 1), (i, j + 1), (i + 1, j)


def wrapped(t, N):
    return [(i % N, j % N) for i, j in t]


def hat(t, E):
    """Normalized density of linear function on triangle (mean at jumps)."""

    A, B, C = sorted(t)

    def one(E, side):
        if E < A or E > C or (E == A and side < 0) or (E == C and side > 0):
            return 0.0
        if E < B or (E == B and side < 0):
            return 2 * (E - A) / ((B - A) * (C - A))
        return 2 * (C - E) / ((C - B) * (C - A))

    return 0.5 * (one(E, -1) + one(E, +1))


def section(t, c, E):
    """Mean coupling along isoline in triangle."""

    points = []

    for m, n in (0, 1), (1, 2), (0, 2):
        if t[m] == t[n]:
            continue

        x = (E - t[m]) / (t[n] - t[m])

        if -1e-12 <= x <= 1 + 1e-12:
            points.append((1 - x) * c[m] + x * c[n])

    return 0.5 * (min(points) + max(points))


def level(g, e, kind):
    lo, hi = float(e.min()), float(e.max())

    if kind == 'corner':
        return float(e.flat[g.integers(e.size)])
    if kind == 'outside':
        return lo - 0.5 if g.random() < 0.5 else hi + 0.5
    if kind == 'edge':
        return lo if g.random() < 0.5 else hi

    return float(g.uniform(lo, hi))


@P.sub('DOS', quick=5700, seed=seeds, N=sizes(1, 6, 12), kind=kinds,
    E=st.sampled_from(['inside', 'inside', 'corner', 'outside', 'edge']),
    window=st.booleans(), coupling=st.booleans())
def DOS(c):
    g = rng(c.seed)
    N = c.N
    e = band(g, N, c.kind)
    a = g.uniform(-1, 2, (N, N))

    old = e.copy(), a.copy()

    k = dict()
    lo, hi = float(e.min()), float(e.max())

    if c.window:
        k['minimum'], k['maximum'] = lo, hi = sorted([level(g, e, 'inside'),
            level(g, e, 'inside')])

    def evaluate(E):
        f = (dos.hexa2F(e, a, **k) if c.coupling else dos.hexDOS(e, **k))
        return f(E)

    Es = np.array([level(g, e, c.E) for _ in range(3)])

    if c.window:
        Es = np.clip(Es, lo, hi)

    T = [([float(e[p]) for p in wrapped(t, N)],
        [float(a[p]) for p in wrapped(t, N)]) for t in triangles(N)]

    def peak(E):
        return any(t[0] == t[1] == t[2] == E for t, _ in T)

    result = evaluate(Es)
    check(np.shape(result) == Es.shape, 'shape of DOS')

    for E, D in zip(Es, result):
        if peak(E):
            check(D == np.inf, 'no peak at energy of constant triangle')
            continue

        ref = 0.0

        for t, x in T:
            h = hat(t, E)

            if h:
                ref += h * (section(t, x, E) if c.coupling else 1.0)

        ref /= 2 * N * N

        close(D, ref, 'spectral function', tol=1e-9, E=E, e=e)
        close(evaluate(float(E)), ref, 'spectral function (scalar)', tol=1e-9)

    # integral, piecewise polynomial between energies of mesh points:

    if not c.window and not any(t[0] == t[1] == t[2] for t, _ in T):
        knots = np.unique(e.astype(float))

        x, w = np.polynomial.legendre.leggauss(3)
        total = 0.0
        f = evaluate(np.concatenate([E0 + (E1 - E0) * (x + 1) / 2
            for E0, E1 in zip(knots, knots[1:])])).reshape((-1, 3))

        for (E0, E1), y in zip(zip(knots, knots[1:]), f):
            total += np.sum(w * y) * (E1 - E0) / 2

        close(total, a.mean() if c.coupling else 1.0, 'integral', tol=1e-7)

    # invariance under shift of mesh:

    m, n = g.integers(0, N, 2)

    e2 = np.roll(e, (m, n), axis=(0, 1))
    a2 = np.roll(a, (m, n), axis=(0, 1))
    f = dos.hexa2F(e2, a2, **k) if c.coupling else dos.hexDOS(e2, **k)

    ok = np.isfinite(result)
    close(f(Es)[ok], result[ok], 'shifted mesh', tol=1e-9)

    equal(e, old[0], 'energies modified')
    equal(a, old[1], 'couplings modified')

    return lo < hi


def ref_double_delta(x, y, f, z, N):
    """Positions modulo N and weights, None if numerically undecidable."""

    points = []

    for t in triangles(N):
        i = wrapped(t, N)
        X = np.array([x[p] for p in i], dtype=float)
        Y = np.array([y[p] for p in i], dtype=float)
        F = np.array([f[p] for p in i], dtype=float)

        M = np.array([[X[1] - X[0], X[2] - X[0]], [Y[1] - Y[0], Y[2] - Y[0]]])
        det = M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]

        if abs(det) < 1e-12:
            if det or abs(X - z).min() < 1e-9:
                return None
            continue

        u = np.linalg.solve(M, [z - X[0], z - Y[0]])
        w = np.array([1 - u.sum(), u[0], u[1]])

        near = np.abs(w) < 1e-5

        if w.min() < -1e-5:
            continue

        if np.any(near & (np.abs(w) > 1e-11)):
            return None

        if near.sum() > 1:
            return None # corner

        k = w.dot(np.array(t, dtype=float))
        points.append((k, w.dot(F) / abs(det) / N ** 2))

    unique = []

    for k, w in points:
        for group in unique:
            d = group[0][0] - k
            d -= N * np.round(d / N)

            if abs(d).max() < 1e-7:
                group.append((k, w))
                break
        else:
            unique.append([(k, w)])

    if any(len(group) > 2 for group in unique):
        return None

    return [(group[0][0] % N, np.mean([w for k, w in group]))
        for group in unique]


@P.sub('double_delta', quick=10680, seed=seeds, N=sizes(1, 6, 12),
    kind=st.sampled_from(['random', 'cos']),
    relation=st.sampled_from(['independent', 'mirror 1', 'mirror 2',
        'mirror 3', 'inversion', 'shift']), f=st.booleans(),
    E=st.sampled_from(['inside', 'outside', 'inside']))
def double_delta(c):
    g = rng(c.seed)
    N = c.N
    x = band(g, N, c.kind)

    def image(fun):
        return np.array([[x[tuple(n % N for n in fun(i, j))]
            for j in range(N)] for i in range(N)])

    if c.relation == 'independent':
        y = band(g, N, c.kind)
    elif c.relation == 'mirror 1': # edge of triangle fixed
        y = image(lambda i, j: (-i, i + j))
    elif c.relation == 'mirror 2':
        y = image(lambda i, j: (i + j, -j))
    elif c.relation == 'mirror 3':
        y = image(lambda i, j: (-j, -i))
    elif c.relation == 'inversion':
        y = image(lambda i, j: (-i, -j))
    else:
        m, n = g.integers(0, N, 2)
        y = np.roll(x, (m, n), axis=(0, 1))

    f = g.uniform(0.5, 2, (N, N)) if c.f else np.ones((N, N))

    z = level(g, x, c.E)
    ref = ref_double_delta(x, y, f, z, N)

    if ref is None:
        return False

    def evaluate(x, y, f):
        args = (f,) if c.f else ()
        return dos.double_delta(x, y, *args)(z)

    old = x.copy(), y.copy(), f.copy()
    result = evaluate(x, y, f)

    equal(x, old[0], 'argument modified')
    equal(y, old[1], 'argument modified')
    equal(f, old[2], 'argument modified')

    total = sum(w for k, w in ref)
    tol = 1e-6 * max([1] + [w for k, w in ref])

    close(sum(result.values()), total, 'double-delta integral', tol=tol, x=x,
        y=y, z=z)
    equal(len(result), len(ref), 'number of intersections')

    for k, w in result.items():
        for k2, w2 in ref:
            d = np.array(k) - k2
            d -= N * np.round(d / N)

            if abs(d).max() < 1e-6:
                close(w, w2, 'weight of intersection', tol=tol)
                break
        else:
            check(False, 'unexpected intersection', k=k)

    shift = tuple(g.integers(0, N, 2))

    close(sum(evaluate(*[np.roll(a, shift, axis=(0, 1))
        for a in (x, y, f)]).values()), total, 'shifted mesh', tol=tol)
    close(sum(evaluate(y, x, f).values()), total, 'arguments swapped',
        tol=tol)

    return bool(ref)


@P.sub('isoline', quick=2590, seed=seeds, N=sizes(2, 8, 16),
    kind=st.sampled_from(['random', 'cos', 'hex', 'int']),
    E=st.sampled_from(['inside', 'corner', 'outside', 'inside']))
def isoline(c):
    g = rng(c.seed)
    N = c.N
    e = band(g, N, c.kind)
    E = level(g, e, c.E)

    old = e.copy()
    contours = dos.isoline(e)(E)
    equal(e, old, 'energies modified')

    fun = elphmod.bravais.linear_interpolation(e.astype(float))
    found = set()

    for contour in contours:
        check(contour.ndim == 2 and contour.shape[1] == 2
            and len(contour) >= 2, 'shape of contour')

        for k1, k2 in contour:
            close(fun(k1 * N, k2 * N), E, 'point on isoline', tol=1e-9, e=e)
            found.add((round(k1 * N, 6), round(k2 * N, 6)))

            for x in k1 - k2, 2 * k1 + k2, k1 + 2 * k2:
                check(abs(x) <= 1 + 1e-9, 'point outside Brillouin zone',
                    k=(k1, k2))

        for a, b in zip(contour, contour[1:]):
            mid = 0.5 * (a + b) * N
            close(fun(*mid), E, 'segment of isoline', tol=1e-9, e=e)

    # contours are joined (corners of the Brillouin zone may be clipped):

    if E not in set(float(x) for x in e.flat):
        ends = [tuple(np.round(contour[n] * N, 7)) for contour in contours
            for n in (0, -1) if tuple(contour[0]) != tuple(contour[-1])]

        for end in ends:
            edge = max(abs(x) for x in (end[0] - end[1], 2 * end[0] + end[1],
                end[0] + 2 * end[1]))

            check(edge > N - 1.5, 'contour interrupted', end=end, e=e, E=E)

    # every crossing of an edge of the mesh within the zone is found:

    lo = min(float(x) for x in e.flat)

    for i in range(-N, N + 1):
        for j in range(-N, N + 1):
            for di, dj in (1, 0), (0, 1), (1, -1):
                ends = [(i, j), (i + di, j + dj)]

                if any(max(abs(a - b), abs(2 * a + b), abs(a + 2 * b))
                        >= N - 1e-9 for a, b in ends):
                    continue

                A, B = [float(e[a % N, b % N]) for a, b in ends]

                if (A < E) == (B < E) or E in (A, B):
                    continue

                x = (E - A) / (B - A)
                p = (i + x * di, j + x * dj)

                check(any(abs(p[0] - q[0]) < 1e-5 and abs(p[1] - q[1]) < 1e-5
                    for q in found), 'crossing missing', p=p, e=e, E=E)

    return bool(found)


@P.sub('spectral', quick=3600, seed=seeds, n=sizes(1, 4, 12),
    shape=st.sampled_from([(), (2,), (2, 3)]), nw=sizes(1, 6, 40),
    eta=st.sampled_from([1e-2, 1e-3, 0.1]), herm=st.booleans())
def spectral(c):
    g = rng(c.seed)
    n = c.n
    shape = tuple(c.shape)

    D = g.normal(size=shape + (n, n, c.nw)) + 1j * g.normal(size=shape + (n, n,
        c.nw))

    if c.herm:
        D = D + D.conj().swapaxes(-2, -3)

    omega = np.sort(g.uniform(0.1, 2, c.nw)) * g.choice([1, -1])
    old = D.copy()

    A = elphmod.ph.spectral_function(D, omega, c.eta)

    equal(D, old, 'dynamical matrix modified')

    ref = np.empty((c.nw,) + shape)

    for w in range(c.nw):
        for i in np.ndindex(*shape):
            lamda = np.linalg.eigvals(D[i + (slice(None), slice(None), w)])

            if c.herm:
                ref[(w,) + i] = 2 * omega[w] / np.pi * np.sum((1 / (lamda
                    - (omega[w] + 1j * c.eta) ** 2)).imag)
            else:
                M = D[i + (slice(None), slice(None), w)] - (omega[w] + 1j
                    * c.eta) ** 2 * np.eye(n)
                X = np.linalg.solve(M, np.eye(n, dtype=complex))
                ref[(w,) + i] = 2 * omega[w] / np.pi * sum(X[k, k].imag
                    for k in range(n))

    close(A, ref, 'spectral function', rtol=1e-7, tol=1e-9)

    # normalization to number of modes (narrow Lorentzians):

    if c.herm and n > 1:
        w0 = g.uniform(0.8, 1.2, n)
        U = np.linalg.qr(g.normal(size=(n, n)))[0]
        D0 = U.dot(np.diag(w0 ** 2)).dot(U.T)
        omega = np.linspace(0, 2, 1001)
        A = elphmod.ph.spectral_function(np.repeat(D0[:, :, None], 1001, 2),
            omega, 0.01)
        close(np.sum(A) * (omega[1] - omega[0]), n, 'normalization', tol=0.05)

    return True
