"""S25: Maps of the Brillouin zone show the data that were put in."""

import itertools

import numpy as np

import elphmod

from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)

P = Property('S25',
    'Random, smooth, integer, and complex data on meshes of 1 to 7 points per '
    'dimension (angles of 60, 90, and 120 degrees), random windows, '
    'resolutions, rotations, wedges, arrangements, color scales, and widths. '
    'Non-trivial: more than one mesh point, image, block, or component.',
    ['Pixels closer than 1e-6 to the boundary of a zone, wedge, or nearest '
        'neighborhood are not compared.', 'Colormaps are user-defined '
        'functions with the interface of StoryLines.'])

plot = elphmod.plot
bravais = elphmod.bravais

deg = np.pi / 180


def real_lattice(angle, angle0=0):
    return [np.array([np.cos(x * deg), np.sin(x * deg)])
        for x in (angle0, angle0 + angle)]


def linear(data, angle, x, y):
    """Linear interpolation on triangles or bilinear one on squares."""

    N, M = data.shape
    n, m = int(np.floor(x)), int(np.floor(y))
    u, v = x - n, y - m

    if angle == 90:
        corners = [(0, 0, (1 - u) * (1 - v)), (1, 0, u * (1 - v)),
            (0, 1, (1 - u) * v), (1, 1, u * v)]
    elif angle == 60:
        if u + v <= 1:
            corners = [(0, 0, 1 - u - v), (1, 0, u), (0, 1, v)]
        else:
            corners = [(1, 1, u + v - 1), (1, 0, 1 - v), (0, 1, 1 - u)]
    else:
        if u >= v:
            corners = [(0, 0, 1 - u), (1, 0, u - v), (1, 1, v)]
        else:
            corners = [(0, 0, 1 - v), (0, 1, v - u), (1, 1, u)]

    return sum(w * data[(n + i) % N, (m + j) % M] for i, j, w in corners)


def mesh_data(g, N, kind):
    if kind == 'int':
        return g.integers(-5, 6, (N, N))
    if kind == 'complex':
        return g.normal(size=(N, N)) + 1j * g.normal(size=(N, N))

    return g.normal(size=(N, N))


def harmonic(g, N):
    """Smooth function of crystal coordinates (period 1) and its samples."""

    R = [(0, 0), (1, 0), (0, 1)][:3 if N > 2 else 1]
    c = g.normal(size=len(R))
    s = g.normal(size=len(R))

    def f(x, y):
        return sum(c[n] * np.cos(2 * np.pi * np.dot(R[n], (x, y)))
            + s[n] * np.sin(2 * np.pi * np.dot(R[n], (x, y)))
            for n in range(len(R)))

    return f, np.array([[f(i / N, j / N) for j in range(N)]
        for i in range(N)])


def centers(lo, hi, n):
    return lo + (np.arange(n) + 0.5) * (hi - lo) / n


angles = st.sampled_from([60, 90, 120])
data_kinds = st.sampled_from(['float', 'float', 'int', 'complex', 'smooth'])


@P.sub('plot', quick=3600, seed=seeds, N=sizes(1, 7, 14), kind=data_kinds,
    angle=angles, x=st.tuples(st.integers(-9, 9), st.integers(1, 12)),
    y=st.tuples(st.integers(-9, 9), st.integers(1, 12)),
    resolution=st.integers(3, 14), return_k=st.booleans(),
    default=st.booleans())
def plain(c):
    g = rng(c.seed)
    N = c.N

    if c.kind == 'smooth':
        f, data = harmonic(g, N)
    else:
        data = mesh_data(g, N, c.kind)

    k = dict(resolution=c.resolution)

    if c.kind == 'smooth':
        k.update(interpolation=bravais.Fourier_interpolation)

    if not (c.default and c.angle == 60):
        k.update(angle=c.angle)

    if c.default:
        x0, x1, y0, y1 = -1.0, 1.0, -1.0, 1.0
    else:
        x0, y0 = c.x[0] / 5, c.y[0] / 5
        x1, y1 = x0 + c.x[1] / 5, y0 + c.y[1] / 5
        k.update(kxmin=x0, kxmax=x1, kymin=y0, kymax=y1)

    old = data.copy()
    result = plot.plot(data, return_k=c.return_k, **k)
    equal(data, old, 'data modified')

    if c.return_k:
        kx, ky, image = result
    else:
        image = result

    ny, nx = image.shape

    check(abs(nx - c.resolution * (x1 - x0)) <= 0.5 + 1e-9, 'width')
    check(abs(ny - c.resolution * (y1 - y0)) <= 0.5 + 1e-9, 'height')

    KX = centers(x0, x1, nx)
    KY = centers(y0, y1, ny)[::-1] # topmost row first

    if c.return_k:
        close(kx, KX, 'horizontal coordinates', tol=1e-9)
        close(ky, KY, 'vertical coordinates', tol=1e-9)

    a1, a2 = real_lattice(180 - c.angle)

    ref = np.empty((ny, nx), dtype=complex)

    for i, j in np.ndindex(ny, nx):
        K = np.array([KX[j], KY[i]])
        k1, k2 = K.dot(a1), K.dot(a2)

        if c.kind == 'smooth':
            ref[i, j] = f(k1, k2)
        else:
            ref[i, j] = linear(data, c.angle, k1 * N, k2 * N)

    close(image, ref, 'image', tol=1e-6 if c.kind == 'smooth' else 1e-9)

    return N > 1


def nearest_points(Q, b):
    """Lattice points sorted by distance in units of lattice vectors."""

    n = np.floor(Q).astype(int)

    points = [(n[0] + i, n[1] + j) for i in range(-2, 4)
        for j in range(-2, 4)]

    return sorted((np.linalg.norm((np.array(p) - Q).dot(b)), p)
        for p in points)


@P.sub('double_plot', quick=1800, seed=seeds, N=sizes(1, 5, 9),
    nq=sizes(1, 4, 9), kind=st.sampled_from(['float', 'complex', 'int']),
    angle=angles, x=st.tuples(st.integers(-5, 3), st.integers(1, 8)),
    y=st.tuples(st.integers(-5, 3), st.integers(1, 8)),
    resolution=st.integers(3, 14), outside=st.sampled_from([None, 3, -1]),
    outlines=st.booleans(), default=st.booleans())
def double_plot(c):
    g = rng(c.seed)
    nq, N = c.nq, c.N

    points = sorted({tuple(map(int, g.integers(-nq, nq + 1, 2)))
        for n in range(g.integers(1, 9))})

    q = [(2 * np.pi * q1 / nq, 2 * np.pi * q2 / nq) for q1, q2 in points]

    data = np.array([mesh_data(g, N, c.kind) for p in points])

    k = dict(resolution=c.resolution)

    if not (c.default and c.angle == 60):
        k.update(angle=c.angle)

    if c.default:
        x0, x1, y0, y1 = -0.8, 0.8, -0.8, 0.8
    else:
        x0, y0 = c.x[0] / 5, c.y[0] / 5
        x1, y1 = x0 + c.x[1] / 5, y0 + c.y[1] / 5
        k.update(qxmin=x0, qxmax=x1, qymin=y0, qymax=y1)

    if c.outside is not None:
        k.update(outside=c.outside)

    old = data.copy()
    image = plot.double_plot(data, q, nq, outlines=c.outlines, **k)
    equal(data, old, 'data modified')

    a = np.array(real_lattice(180 - c.angle))
    b = np.linalg.inv(a).T

    if c.outlines:
        image, outlines = image

        equal(len(outlines), len(points), 'number of outlines')

        for p, polygon in zip(points, outlines):
            close(polygon[0], polygon[-1], 'closed', tol=1e-9)

            unique = polygon[:-1]

            equal(len(unique), 4 if c.angle == 90 else 6, 'corners')

            center = np.dot(p, b) / nq

            for n in range(len(unique)):
                # adjacent corners have two nearest zones in common

                common = []

                for m in n, n - 1:
                    Q = unique[m].dot(a.T) * nq
                    near = nearest_points(Q, b)

                    shared = {x for d, x in near if d < near[0][0] + 1e-6}

                    check(p in shared, 'outline of other zone')

                    equal(len(shared), 4 if c.angle == 90 else 3,
                        'not a corner')

                    common.append(shared)

                equal(len(common[0] & common[1]), 2, 'order of corners')

            close(unique.mean(axis=0), center, 'center of outline', tol=1e-9)

    ny, nx = image.shape

    check(abs(nx - c.resolution * (x1 - x0)) <= 0.5 + 1e-9, 'width')
    check(abs(ny - c.resolution * (y1 - y0)) <= 0.5 + 1e-9, 'height')

    KX = centers(x0, x1, nx)
    KY = centers(y0, y1, ny)[::-1]

    hits = set()

    for i, j in np.ndindex(ny, nx):
        Q = a.dot([KX[j], KY[i]]) * nq
        near = nearest_points(Q, b)

        if near[1][0] - near[0][0] < 1e-6:
            continue

        p = near[0][1]

        if p in points:
            hits.add(p)
            ref = linear(data[points.index(p)], c.angle, *Q * N)
        else:
            ref = c.outside or 0.0

        close(image[i, j], ref, 'image', tol=1e-9, q=Q)

    return len(hits) > 1


@P.sub('toBZ', quick=3600, seed=seeds, N=sizes(1, 7, 14),
    wedges=st.sampled_from([0, 1, 2, 3, 6]), kind=data_kinds, angle=angles,
    angle0=st.sampled_from([0, 0, 30, -30, 45, 90, 17, 200]),
    points=st.integers(5, 24), outside=st.sampled_from([None, 2.0, 'nan']),
    even=st.booleans(), returns=st.sampled_from(['image', 'k', 'only']),
    default=st.booleans())
def toBZ(c):
    g = rng(c.seed)
    N = c.N

    shape = c.wedges or 1
    k = dict(points=c.points)

    if c.kind == 'smooth':
        functions, data = zip(*[harmonic(g, N) for n in range(shape)])
        data = np.array(data)
        k.update(interpolation=bravais.Fourier_interpolation)
    else:
        data = np.array([mesh_data(g, N, c.kind) for n in range(shape)])

    angle, angle0 = c.angle, c.angle0

    if not (c.default and angle == 120):
        k.update(angle=angle)
    if c.default:
        angle0 = 0
    else:
        k.update(angle0=angle0)

    if c.outside is not None:
        k.update(outside=np.nan if c.outside == 'nan' else c.outside)
    if c.even:
        k.update(even=True)

    a = np.array(real_lattice(angle, angle0))
    b = np.linalg.inv(a).T

    # corners of Brillouin zone are equally close to several lattice points:

    G = np.array([G for G in itertools.product(range(-2, 3), repeat=2)
        if any(G)]).dot(b)

    corners = []

    for A, B in itertools.combinations(G, 2):
        if abs(np.linalg.det([A, B])) > 1e-6:
            x = np.linalg.solve([A, B], [A.dot(A) / 2, B.dot(B) / 2])

            if np.all(G.dot(x) <= (G * G).sum(axis=1) / 2 + 1e-9):
                corners.append(x)

    xmax, ymax = np.max(corners, axis=0)

    if c.returns == 'only':
        kxmax, kymax, kx, ky = plot.toBZ(return_only_k=True, **k)
        image = None
    else:
        old = data.copy()
        result = plot.toBZ(data if c.wedges else data[0],
            return_k=c.returns == 'k', **k)
        equal(data, old, 'data modified')

        if c.returns == 'k':
            kxmax, kymax, kx, ky, image = result
        else:
            image = result
            kxmax = kymax = kx = ky = None

    if kx is None:
        ny, nx = image.shape
    else:
        close([kxmax, kymax], [xmax, ymax], 'size of Brillouin zone',
            tol=1e-9)

        ny, nx = len(ky), len(kx)

    KX = centers(-xmax, xmax, nx)
    KY = centers(-ymax, ymax, ny)[::-1]

    if kx is not None:
        close(kx, KX, 'horizontal coordinates', tol=1e-9)
        close(ky, KY, 'vertical coordinates', tol=1e-9)

    for n, size in (nx, xmax), (ny, ymax):
        target = c.points * size

        if c.even:
            check(n % 2 == 0 and abs(n - target) < 1.5 + 1e-9, 'even')
        else:
            check(abs(n - target) <= 0.5 + 1e-9, 'number of pixels')

    if image is None:
        return N > 1

    equal(image.shape, (ny, nx), 'shape of image')

    outside = np.nan if c.outside == 'nan' else c.outside or 0.0

    for i, j in np.ndindex(ny, nx):
        K = np.array([KX[j], KY[i]])

        slack = np.min((G * G).sum(axis=1) / 2 - G.dot(K))

        if abs(slack) < 1e-6:
            continue

        if slack < 0:
            if np.isnan(outside):
                check(np.isnan(image[i, j]), 'outside')
            else:
                close(image[i, j], outside, 'outside', tol=1e-12)
            continue

        phi = (np.arctan2(K[1], K[0]) / deg - angle0) / 360 * shape

        if shape > 1 and (abs(phi - round(phi)) < 1e-6
                or np.linalg.norm(K) < 1e-6):
            continue

        n = int(np.floor(phi)) % shape
        k1, k2 = a.dot(K)

        if c.kind == 'smooth':
            ref = functions[n](k1, k2)
        else:
            ref = linear(data[n], 180 - angle, k1 * N, k2 * N)

        close(image[i, j], ref, 'image', k=K, wedge=phi, tol=1e-6 if c.kind == 'smooth'
            else 1e-9)

    return N > 1


@P.sub('colorbar', quick=3600, seed=seeds, shape=ints(4, 60, 2),
    place=st.lists(st.sampled_from([0.0, 0.02, 0.1, 0.25, 0.4, 0.5]),
    min_size=4, max_size=4), limits=st.booleans(), default=st.booleans(),
    nan=st.booleans())
def colorbar(c):
    g = rng(c.seed)
    ny, nx = c.shape

    image = g.normal(size=(ny, nx))

    if c.nan:
        image[g.integers(ny), g.integers(nx)] = np.nan

    if c.default:
        left, bottom, width, height = 0.02, 0.02, 0.03, 0.3
        k = dict()
    else:
        left, bottom, width, height = c.place
        k = dict(left=left, bottom=bottom, width=width, height=height)

    if height * ny < 1.5:
        return False

    lo, hi = np.nanmin(image), np.nanmax(image)

    if c.limits:
        lo, hi = -3.0, 7.5
        k.update(minimum=lo, maximum=hi)

    old = image.copy()
    plot.colorbar(image, **k)

    equal(image.shape, old.shape, 'shape')

    # locate colorbar with values absent from image:

    other = old.copy()
    plot.colorbar(other, **dict(k, minimum=lo - 10, maximum=hi + 10))

    changed = (other != old) & ~(np.isnan(other) & np.isnan(old))
    rows, columns = np.where(changed)

    check(np.array_equal(image[~changed], old[~changed], equal_nan=True),
        'rest of image changed')

    bar = image[rows.min():rows.max() + 1, columns.min():columns.max() + 1]

    check(np.all(bar == bar[:, :1]), 'color depends on column')
    close(bar[:, 0], np.linspace(hi, lo, len(bar)), 'colors', tol=1e-9)

    # rectangle within rounding:

    for got, expected in [(columns.min(), left * nx),
            (columns.max(), (left + width) * nx),
            (rows.min(), (1 - bottom - height) * ny),
            (rows.max(), (1 - bottom) * ny)]:

        check(abs(got - expected) <= 1.0 + 1e-9, 'position of colorbar',
            got=got, expected=expected)

    return True


@P.sub('arrange', quick=3600, seed=seeds, n=sizes(1, 13, 40),
    columns=st.one_of(st.none(), st.integers(1, 15)), shape=ints(1, 3, 2),
    array=st.booleans())
def arrange(c):
    g = rng(c.seed)
    images = [g.integers(0, 1000, c.shape) for n in range(c.n)]

    if c.array:
        images = np.array(images)

    image = plot.arrange(images, *[] if c.columns is None else [c.columns])

    ny, nx = c.shape

    # as few columns as possible but not less than requested:

    columns = int(np.sqrt(c.n)) if c.columns is None else c.columns
    columns = min([d for d in range(1, c.n + 1) if c.n % d == 0
        and d >= columns], default=c.n)

    equal(image.shape, (ny * c.n // columns, nx * columns), 'shape')

    for n in range(c.n):
        i, j = divmod(n, columns)

        equal(image[i * ny:(i + 1) * ny, j * nx:(j + 1) * nx], images[n],
            'order of images')

    return c.n > 1


@P.sub('rectify', quick=3600, seed=seeds, shape=ints(2, 9, 2),
    corners=st.lists(st.integers(0, 20), min_size=8, max_size=8),
    size=ints(2, 8, 2), identity=st.booleans(), angle=st.sampled_from([None,
    60, 90, 120]))
def rectify(c):
    g = rng(c.seed)
    Ny, Nx = c.shape
    data = g.normal(size=c.shape)

    lt, rt, lb, rb = np.reshape(c.corners, (4, 2)) / 20
    width, height = np.array(c.size) / 4

    if c.identity:
        lt, rt, lb, rb = np.array([(0, 1), (1, 1), (0, 0), (1, 0)])
        width = height = 1.0

    k = dict() if c.angle is None else dict(angle=c.angle)

    nx = Nx * width
    ny = Ny * height

    if round(nx + 1e-9) != round(nx - 1e-9) or round(ny + 1e-9) != round(ny
            - 1e-9):
        return False

    old = data.copy()
    image = plot.rectify(data, width, height, tuple(lt), tuple(rt), tuple(lb),
        tuple(rb), **k)
    equal(data, old, 'image modified')

    equal(image.shape, (round(ny), round(nx)), 'shape')
    ny, nx = image.shape

    if c.identity:
        close(image, data, 'identity', tol=1e-9)

    for i, j in np.ndindex(ny, nx):
        u, v = j / nx, i / ny # from left to right and from top to bottom

        x, y = (1 - v) * ((1 - u) * lt + u * rt) + v * ((1 - u) * lb + u * rb)

        ref = linear(data, c.angle or 60, Ny * (1 - y), Nx * x)

        close(image[i, j], ref, 'pixel', tol=1e-6)

    return True


class Colormap:
    """Piecewise linear red channel, other functions for green and blue."""

    def __init__(self, x):
        self.x = x

    def __call__(self, x):
        class Color:
            def RGB(color):
                return [255 * np.interp(x, [float(y) for y in self.x],
                    np.linspace(0, 1, len(self.x))), 100 * x, 7 + x * x]
        return Color()


@P.sub('color', quick=3600, seed=seeds, shape=ints(1, 15, 2),
    limits=st.sampled_from(['none', 'wide', 'narrow', 'min', 'max']),
    strings=st.booleans(), kind=st.sampled_from(['float', 'int', 'list']))
def color(c):
    g = rng(c.seed)

    data = g.integers(-9, 10, c.shape) if c.kind == 'int' else g.normal(
        size=c.shape)

    if np.ptp(data) == 0:
        data.flat[0] += 1

    lo, hi = data.min(), data.max()
    k = dict()

    blank = set() # e.g., pixels outside Brillouin zone

    if c.kind == 'float' and data.size > 5 and g.integers(3) == 0:
        order = np.argsort(data, axis=None) # neither minimum nor maximum
        for n in g.choice(order[1:-1], 2):
            data.flat[n] = np.nan
            blank.add(tuple(map(int, np.unravel_index(n, data.shape))))

    if c.limits == 'wide':
        lo, hi = -20.0, 11.0
    elif c.limits == 'narrow':
        lo, hi = -0.3, 0.2

    if c.limits in ('wide', 'narrow'):
        k.update(minimum=lo, maximum=hi)
    elif c.limits == 'min':
        lo = hi - 1.5
        k.update(minimum=lo)
    elif c.limits == 'max':
        hi = lo + 1.5
        k.update(maximum=hi)

    if not lo < hi:
        return False

    x = [0.0, 0.4, 1.0]
    cmap = Colormap([x[0], str(lo + x[1] * (hi - lo)), x[2]] if c.strings
        else x)

    old = data.copy()
    image = plot.color(data.tolist() if c.kind == 'list' else data, cmap, **k)
    check(np.array_equal(data, old, equal_nan=True), 'data modified')

    equal(image.shape, (*c.shape, 3), 'shape')

    ref = Colormap(x)

    for i, j in np.ndindex(*c.shape):
        if (i, j) in blank:
            continue

        close(image[i, j], ref(min(max((data[i, j] - lo) / (hi - lo), 0),
            1)).RGB(), 'color', tol=1e-9)

    # same colormap for another image with another range:

    if c.strings:
        value = lo + x[1] * (hi - lo)
        low, high = value - 1.0, value + 3.0
        other = g.uniform(low, high, c.shape)
        image = plot.color(other, cmap, low, high)
        ref = Colormap([0.0, 0.25, 1.0])

        for i, j in np.ndindex(*c.shape):
            close(image[i, j], ref((other[i, j] - low) / (high - low)).RGB(),
                'color of second image', tol=1e-9)

    return data.size > 1


@P.sub('adjust_pixels', quick=3600, seed=seeds, blocks=st.lists(st.tuples(
    st.integers(0, 5), st.integers(0, 8)), min_size=1, max_size=4),
    height=st.integers(1, 4), new_height=st.one_of(st.none(),
    st.integers(1, 6)), width=st.integers(2, 25), depth=st.sampled_from([(),
    (2,), (3, 1)]), first=st.integers(0, 2), origin=st.integers(-3, 3))
def adjust_pixels(c):
    g = rng(c.seed)

    points = [c.first]
    distances = [float(c.origin)]

    for n, d in c.blocks:
        points.append(points[-1] + n)
        distances.append(distances[-1] + d / 2)

    if distances[-1] == distances[0]:
        return False

    image = g.normal(size=(c.height, points[-1] + 1 + g.integers(0, 2),
        *c.depth))

    exact = (np.array(distances) - distances[0]) / (distances[-1]
        - distances[0]) * (c.width - 1)

    if np.any(abs(exact % 1 - 0.5) < 1e-6):
        return False

    new = np.round(exact).astype(int)

    old = image.copy()
    k = dict() if c.new_height is None else dict(height=c.new_height)

    result = plot.adjust_pixels(image, points, distances, c.width, **k)
    equal(image, old, 'image modified')

    h = c.new_height or c.height

    equal(result.shape, (h, c.width, *c.depth), 'shape')

    # resize vertically first (the order does not matter)

    def resample(x, n):
        if n == 1:
            return x[:1]

        y = np.arange(n) * (len(x) - 1) / (n - 1)
        i = np.minimum(y.astype(int), max(len(x) - 2, 0))
        w = (y - i).reshape((-1,) + (1,) * (x.ndim - 1))

        return (1 - w) * x[i] + w * x[np.minimum(i + 1, len(x) - 1)]

    tall = resample(image, h)

    for j in range(c.width):
        choices = []

        for n in range(len(c.blocks)):
            if new[n] <= j <= new[n + 1]:
                block = tall[:, points[n]:points[n + 1] + 1]

                if new[n] == new[n + 1]: # too narrow to be resolved
                    choices.extend(block[:, m] for m in range(block.shape[1]))
                else:
                    t = (j - new[n]) / (new[n + 1] - new[n])
                    y = t * (block.shape[1] - 1)
                    i = min(int(y), max(block.shape[1] - 2, 0))
                    last = block.shape[1] - 1

                    choices.append((1 - y + i) * block[:, i]
                        + (y - i) * block[:, min(i + 1, last)])

        check(any(np.allclose(result[:, j], x, atol=1e-9) for x in choices),
            'column', j=j, got=result[:, j], expected=choices)

    return True


@P.sub('compline', quick=3600, seed=seeds, nx=sizes(1, 7, 30),
    nc=sizes(0, 4, 9), center=st.booleans())
def compline(c):
    g = rng(c.seed)

    x = np.sort(g.uniform(0, 5, c.nx))
    y = g.normal(size=c.nx)
    w = g.uniform(0, 1, (c.nx, c.nc) if c.nc else c.nx)

    old = x.copy(), y.copy(), w.copy()

    XY = plot.compline(x, y, w, **dict() if c.center else dict(center=False))

    for a, b in zip((x, y, w), old):
        equal(a, b, 'argument modified')

    w = w.reshape((c.nx, -1))
    nc = w.shape[1]

    equal(XY.shape, (nc, 2, 2 * c.nx + 1), 'shape')

    # area of polygons between outlines

    edges = np.zeros((nc + 1, c.nx))

    for n in range(nc):
        edges[n + 1] = edges[n] + w[:, n]

    if c.center:
        edges += y - w.sum(axis=1) / 2

    for n in range(nc):
        X, Y = XY[n]

        close(XY[n, :, 0], XY[n, :, -1], 'closed', tol=1e-12)

        corners = sorted(zip(np.round(X[:-1], 9), np.round(Y[:-1], 9)))

        expected = sorted([(round(x[i], 9), round(edges[m, i], 9))
            for i in range(c.nx) for m in (n, n + 1)])

        close(corners, expected, 'corners', tol=1e-8)

        # area via shoelace formula (sensitive to order of points):

        area = 0.5 * abs(np.sum(X[:-1] * Y[1:] - X[1:] * Y[:-1]))

        close(area, np.trapezoid(w[:, n], x), 'area', tol=1e-9)

    return nc > 1 and c.nx > 1
