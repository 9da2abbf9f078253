"""S09: Interpolation on meshes is exact where it must be."""

import itertools

import numpy as np

import elphmod

from vp import gen
from vp.checks import s08
from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)

P = Property('S09',
    'Random periodic data (real, integer, complex, angular, multi-component) '
    'on one- and two-dimensional meshes of random size, random evaluation '
    'points including mesh points, edges, and negative or large coordinates. '
    'Non-trivial: more than one mesh point and an evaluation point off the '
    'mesh.',
    ['Multi-component data are evaluated at one point at a time.',
        'Angular data vary by less than half a period between neighbors '
        '(except at mesh points).'])

angles = st.sampled_from([60, 90, 120])

coordinate = st.one_of(st.integers(-9, 9).map(float),
    st.integers(-40, 40).map(lambda x: x / 4),
    st.floats(-9, 9).map(lambda x: round(x, 5)))


def exact(data, n, m, angle):
    """Interpolation between corners of triangle or square around point."""

    N, M = data.shape[:2]
    n0 = int(np.floor(n))
    m0 = int(np.floor(m))
    x = n - n0
    y = m - m0

    def corner(i, j):
        return data[(n0 + i) % N, (m0 + j) % M]

    if angle == 90:
        return sum(corner(i, j) * abs(1 - i - x) * abs(1 - j - y)
            for i in range(2) for j in range(2))

    if angle == 60:
        triangles = [[(0, 0), (1, 0), (0, 1)], [(1, 1), (1, 0), (0, 1)]]
    else:
        triangles = [[(0, 0), (1, 1), (1, 0)], [(0, 0), (1, 1), (0, 1)]]

    for t in triangles:
        A = np.vstack([np.array(t, dtype=float).T, np.ones(3)])
        w = np.linalg.solve(A, [x, y, 1.0])

        if np.all(w > -1e-12):
            return sum(a * corner(*b) for a, b in zip(w, t))

    raise AssertionError


def payload(g, shape, kind):
    if kind == 'complex':
        return gen.cplx(g, shape)
    if kind == 'int':
        return g.integers(-50, 50, shape)
    return g.standard_normal(shape)


@P.sub('linear', quick=4800, N=sizes(1, 6, 15), M=sizes(1, 6, 15),
    angle=angles, seed=seeds, kind=st.sampled_from(['float', 'complex', 'int']),
    extra=st.lists(st.integers(1, 3), max_size=2),
    points=st.lists(st.tuples(coordinate, coordinate), min_size=1, max_size=6),
    axes=st.sampled_from([(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]))
def linear(c):
    g = rng(c.seed)
    data = payload(g, (c.N, c.M, *c.extra), c.kind)

    axes = tuple(c.axes)

    if max(axes) >= data.ndim:
        axes = (0, 1)

    rest = [n for n in range(data.ndim) if n not in axes]
    stored = np.transpose(data, np.argsort(list(axes) + rest))
    old = stored.copy()

    kwargs = {}

    if c.angle != 60 or c.seed % 2:
        kwargs['angle'] = c.angle

    if axes != (0, 1):
        kwargs['axes'] = axes

    fun = elphmod.bravais.linear_interpolation(stored, **kwargs)

    for n, m in c.points:
        close(fun(n, m), exact(data, n, m, c.angle), 'value', n=n, m=m)

    for n, m in np.ndindex(c.N, c.M):
        close(fun(n, m), data[n, m], 'value at mesh point', n=n, m=m)
        close(fun(n - c.N, m + 2 * c.M), data[n, m], 'periodicity', n=n, m=m)

    if not c.extra:
        x = np.array(c.points)
        many = fun(x[:, 0], x[:, 1])
        close(many, [exact(data, n, m, c.angle) for n, m in c.points],
            'array of points')
        close(fun(x[:, :1], x[:, 1]), [[exact(data, n, m, c.angle)
            for m in x[:, 1]] for n in x[:, 0]], 'broadcast points')

    equal(stored, old, 'data modified')

    return c.N * c.M > 1 and any(n % 1 or m % 1 for n, m in c.points)


@P.sub('line', quick=2400, N=sizes(1, 8, 30), seed=seeds,
    kind=st.sampled_from(['float', 'complex', 'int']),
    extra=st.lists(st.integers(1, 3), max_size=2), axis=st.integers(0, 2),
    tuple_=st.booleans(), points=st.lists(coordinate, min_size=1, max_size=6))
def line(c):
    g = rng(c.seed)
    data = payload(g, (c.N, *c.extra), c.kind)
    axis = min(c.axis, data.ndim - 1)
    stored = np.moveaxis(data, 0, axis)

    fun = elphmod.bravais.linear_interpolation(stored,
        axes=(axis,) if c.tuple_ else axis)

    for x in c.points:
        i = int(np.floor(x))
        ref = data[i % c.N] * (i + 1 - x) + data[(i + 1) % c.N] * (x - i)
        close(fun(x), ref, 'value', x=x)

    for i in range(-c.N, 2 * c.N):
        close(fun(i), data[i % c.N], 'value at mesh point')

    return c.N > 1 and any(x % 1 for x in c.points)


@P.sub('symmetry', quick=1440, N=sizes(1, 6, 12), angle=angles, seed=seeds,
    op=st.integers(0, 11), shift=st.tuples(st.integers(-5, 5),
    st.integers(-5, 5)), points=st.lists(st.tuples(coordinate, coordinate),
    min_size=1, max_size=4), period=st.booleans())
def symmetry(c):
    """Interpolation commutes with symmetry operations and translations."""

    g = rng(c.seed)
    N = c.N
    W = s08.operations[c.angle][c.op % len(s08.operations[c.angle])]

    data = g.standard_normal((N, N))

    # the interpolation is only unique if the values of a cell, modulo the
    # period, spread over less than half of it

    if c.period:
        data = g.uniform(-2.3, 2.3, (N, N)) + 10 * g.integers(-3, 4, (N, N))

    new = np.empty_like(data)

    for k in np.ndindex(N, N):
        K = (W.dot(k) + c.shift) % N
        new[tuple(K)] = data[k]

    kwargs = dict(period=10.0) if c.period else {}

    f = elphmod.bravais.linear_interpolation(data, c.angle, **kwargs)
    F = elphmod.bravais.linear_interpolation(new, c.angle, **kwargs)

    for x in c.points:
        d = F(*(W.dot(x) + c.shift)) - f(*x)

        if c.period:
            d = (d + 5) % 10 - 5

        close(d, 0.0, 'symmetry-equivalent point', x=x, tol=1e-7)

    return N > 1


@P.sub('periodic', quick=2400, N=sizes(3, 7, 12), M=sizes(3, 7, 12),
    angle=angles, seed=seeds, period=st.sampled_from([1.0, 2 * np.pi, 360.0]),
    wind=st.tuples(st.sampled_from([-1, 0, 1]), st.sampled_from([-1, 0, 1])),
    points=st.lists(st.tuples(coordinate, coordinate), min_size=1, max_size=5),
    mode=st.sampled_from(['period', 'polar', 'line']), extra=st.booleans())
def periodic(c):
    """Values on a periodic axis."""

    g = rng(c.seed)
    N, M, T = c.N, c.M, c.period
    shape = (N, M, 2) if c.extra else (N, M)

    if c.mode == 'line':
        M = 1
        shape = (N, 2) if c.extra else (N,)

    # winding phase plus small fluctuations, then arbitrary multiples of period

    smooth = g.uniform(-0.06, 0.06, shape) * T
    n = np.arange(N).reshape((N,) + (1,) * (len(shape) - 1))
    ramp = c.wind[0] * n / N

    if c.mode != 'line':
        m = np.arange(M).reshape((1, M) + (1,) * (len(shape) - 2))
        ramp = ramp + c.wind[1] * m / M
        steep = max(abs(c.wind[0]) / N, abs(c.wind[1]) / M,
            abs(c.wind[0] / N - c.wind[1] / M),
            abs(c.wind[0] / N + c.wind[1] / M))
    else:
        steep = abs(c.wind[0]) / N

    if steep > 0.34:
        return False

    total = smooth + g.uniform(0, 1) * T
    unwrapped = total + ramp * T

    def reference(n, m):
        """Interpolate fluctuations, add exact ramp."""

        if c.mode == 'line':
            i = int(np.floor(n))
            s = total[i % N] * (i + 1 - n) + total[(i + 1) % N] * (n - i)
            return s + c.wind[0] * n / N * T

        s = exact(total, n, m, c.angle)
        return s + (c.wind[0] * n / N + c.wind[1] * m / M) * T

    wrapped = unwrapped + g.integers(-3, 4, shape) * T

    if c.mode == 'polar':
        amplitude = g.uniform(0.5, 2.0, shape)
        data = amplitude * np.exp(2j * np.pi * unwrapped / T)
        fun = elphmod.bravais.linear_interpolation(data, c.angle, polar=True)
    elif c.mode == 'line':
        data = wrapped
        fun = elphmod.bravais.linear_interpolation(data, axes=0, period=T)
    else:
        data = wrapped
        fun = elphmod.bravais.linear_interpolation(data, c.angle, period=T)

    old = data.copy()

    for n, m in c.points:
        phase = reference(n, m)

        if c.mode == 'polar':
            ref = exact(amplitude, n, m, c.angle) * np.exp(2j * np.pi
                * phase / T)
            close(fun(n, m), ref, 'polar value', n=n, m=m)
        else:
            value = fun(n) if c.mode == 'line' else fun(n, m)
            d = (value - phase + T / 2) % T - T / 2
            close(d / T, np.zeros(np.shape(d)), 'value on periodic axis', n=n,
                m=m)

    equal(data, old, 'data modified')

    return any(n % 1 for n, m in c.points)


@P.sub('stack', quick=2400, seed=seeds, n=sizes(1, 5, 9),
    shape=st.lists(st.integers(1, 3), max_size=2),
    period=st.sampled_from([None, 1.0, 10.0, 360.0]), integer=st.booleans())
def stack(c):
    """Equivalent points with the smallest spread."""

    g = rng(c.seed)
    T = 2 * np.pi if c.period is None else c.period
    kwargs = {} if c.period is None else dict(period=c.period)

    if c.integer and T == 10.0:
        points = g.integers(-30, 30, (c.n, *c.shape))
        kwargs['period'] = 10
    else:
        points = g.uniform(-3, 3, (c.n, *c.shape)) * T

    old = points.copy()
    new = elphmod.bravais.stack(*points, **kwargs)

    equal(points, old, 'points modified')
    equal(np.shape(new), points.shape, 'shape')

    d = (new - points + T / 2) % T - T / 2
    close(d / T, np.zeros(points.shape), 'equivalent points')

    for i in np.ndindex(*c.shape):
        x = np.array([p[i] for p in points]) % T
        y = np.array([p[i] for p in new])
        best = min(np.std(x + T * np.array(s))
            for s in itertools.product([0, 1], repeat=c.n))
        close(np.std(y) / T, best / T, 'spread')

    return c.n > 1


@P.sub('resize', quick=2400, seed=seeds, N=sizes(1, 5, 12),
    M=sizes(1, 5, 12), new=st.tuples(sizes(1, 7, 24), sizes(1, 7, 24)),
    angle=angles, kind=st.sampled_from(['float', 'complex', 'int']),
    extra=st.booleans(), one=st.booleans(), periodic=st.booleans(),
    axes=st.sampled_from([(0, 1), (1, 0), (0, 2), (2, 1)]))
def resize(c):
    g = rng(c.seed)
    data = payload(g, (c.N, c.M, 2) if c.extra else (c.N, c.M), c.kind)
    axes = tuple(c.axes)

    if max(axes) >= data.ndim:
        axes = (0, 1)

    new = tuple(c.new)

    if not c.periodic:
        new = tuple(max(n, 2) for n in new)

    old = data.copy()

    if c.one:
        axis = axes[0]
        moved = np.moveaxis(data, axis, 0)
        out = elphmod.bravais.resize(data, new[0], axes=axis,
            periodic=c.periodic)
        N = data.shape[axis]
        ref = np.empty((new[0], *moved.shape[1:]), dtype=complex)

        for m in range(new[0]):
            x = m * N / new[0] if c.periodic else m * (N - 1) / (new[0] - 1)
            i = int(np.floor(x + 1e-12))
            ref[m] = moved[i % N] * (i + 1 - x) + moved[(i + 1) % N] * (x - i)

        ref = np.moveaxis(ref, 0, axis)
    else:
        rest = [n for n in range(data.ndim) if n not in axes]
        moved = np.transpose(data, list(axes) + rest)
        out = elphmod.bravais.resize(data, new, angle=c.angle, axes=axes,
            periodic=c.periodic)
        ref = np.empty((*new, *moved.shape[2:]), dtype=complex)

        for m in np.ndindex(*new):
            x = [m[i] * moved.shape[i] / new[i] if c.periodic else
                m[i] * (moved.shape[i] - 1) / (new[i] - 1) for i in range(2)]
            ref[m] = exact(moved, *x, c.angle)

        ref = np.transpose(ref, np.argsort(list(axes) + rest))

    close(out, ref, 'resized data')
    equal(data, old, 'data modified')

    # options are those of the interpolation

    if not c.one:
        T = float(g.uniform(0.5, 20.0))

        for kwargs in dict(period=T), dict(polar=True):
            phase = g.uniform(-0.23, 0.23, data.shape)
            phase += g.uniform(-2, 2)
            phase += g.integers(-2, 3, data.shape)

            if 'period' in kwargs:
                data = phase * T
            else:
                data = g.uniform(0.5, 2.0, data.shape) * np.exp(2j * np.pi
                    * phase)

            moved = np.transpose(data, list(axes) + rest)
            out = elphmod.bravais.resize(data, new, angle=c.angle, axes=axes,
                periodic=c.periodic, **kwargs)
            fun = elphmod.bravais.linear_interpolation(moved, c.angle,
                **kwargs)
            out = np.transpose(out, list(axes) + rest)

            for m in np.ndindex(*new):
                x = [m[i] * moved.shape[i] / new[i] if c.periodic else
                    m[i] * (moved.shape[i] - 1) / (new[i] - 1)
                    for i in range(2)]
                d = out[m] - fun(*x)

                if 'period' in kwargs:
                    d = (d + T / 2) % T - T / 2

                close(d, np.zeros(d.shape), 'resized data with %s' % kwargs)

    return True


@P.sub('Fourier', quick=1350, seed=seeds, N=sizes(1, 7, 12), angle=angles,
    sign=st.sampled_from([-1, 1]), extra=st.booleans(),
    limited=st.booleans(), parity=st.sampled_from([0, 1, -1]), points=st.lists(st.tuples(coordinate, coordinate),
    min_size=1, max_size=4))
def fourier(c):
    g = rng(c.seed)
    N = c.N
    shape = (2,) if c.extra else ()

    if c.limited:
        # lattice vectors in the interior of the Wigner-Seitz cell
        # of the lattice dual to the mesh

        metric = np.array(s08.metric[180 - c.angle])
        grid = [np.array(x) for x in itertools.product(range(-N, N + 1),
            repeat=2)]
        inside = []

        for x in grid:
            d = x.dot(metric).dot(x)
            if all(d < (x - N * y).dot(metric).dot(x - N * y) for y in
                    [np.array(z) for z in itertools.product([-2, -1, 0, 1, 2],
                    repeat=2)] if y.any()):
                inside.append(x)

        coeff = gen.cplx(g, (len(inside), *shape))

        def f(n, m):
            return sum(C * np.exp(2j * np.pi / N * x.dot((n, m)))
                for x, C in zip(inside, coeff)).real

        data = np.array([[f(n, m) for m in range(N)] for n in range(N)])
    else:
        data = g.standard_normal((N, N, *shape))

        if c.parity:
            # even or odd function: real or imaginary coefficients

            data = data + c.parity * np.roll(data[::-1, ::-1], 1, axis=(0, 1))

        if c.extra and c.parity < 1:
            data[..., c.seed % 2] = 0.0

    old = data.copy()
    tol = 1e-6 * N * N + 1e-8 # coefficients below 1e-6 are neglected

    kwargs = {}

    if c.angle != 60:
        kwargs['angle'] = c.angle

    if c.sign != -1:
        kwargs['sign'] = c.sign

    fun = elphmod.bravais.Fourier_interpolation(data, **kwargs)
    par = elphmod.bravais.Fourier_interpolation(data, function=False, **kwargs)

    equal(data, old, 'data modified')

    def fourier(n, m):
        return sum(v * np.exp(-c.sign * 2j * np.pi / N * np.dot(p, (n, m)))
            for p, v in par.items()) + np.zeros(shape)

    for n, m in np.ndindex(N, N):
        close(fun(n, m), data[n, m], 'value at mesh point', tol=tol)
        close(fourier(n, m), data[n, m], 'sum at mesh point', tol=tol)
        close(fun(n + N, m - 2 * N), data[n, m], 'periodicity', tol=tol)

    for n, m in c.points:
        if len(par):
            close(fun(n, m), fourier(n, m).real, 'parameters')

        if c.limited:
            close(fun(n, m), f(n, m), 'band-limited function', tol=tol)

    if not c.extra and N > 1:
        # interpolation commutes with the point group

        W = s08.operations[c.angle][c.seed % len(s08.operations[c.angle])]
        new = np.empty_like(data)
        for k in np.ndindex(N, N):
            new[tuple(W.dot(k) % N)] = data[k]

        F = elphmod.bravais.Fourier_interpolation(new, **kwargs)

        for x in c.points:
            close(F(*W.dot(x)), fun(*x), 'symmetry-equivalent point',
                tol=2 * tol)

    return N > 1
