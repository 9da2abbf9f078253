"""S10: Lattice geometry and k paths are consistent."""

import contextlib
import io
import itertools

import numpy as np

import elphmod

from vp import gen
from vp.checks import s08
from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)

P = Property('S10',
    'Random lattice parameters for every supported Bravais-lattice index, '
    'random vectors, random paths of labels and coordinates, random meshes. '
    'Non-trivial: lattice parameters that differ from each other, paths with '
    'at least two segments, meshes with more than one point.',
    ['Lattice parameters describe a non-degenerate cell.'])

a0 = 0.529177210903 # bohr in angstrom (CODATA)

I, F, A, B, C = ((0.5, 0.5, 0.5),), ((0, 0.5, 0.5), (0.5, 0, 0.5),
    (0.5, 0.5, 0)), ((0, 0.5, 0.5),), ((0.5, 0, 0.5),), ((0.5, 0.5, 0),)

# index: lattice system, centering of conventional cell
lattices = {1: ('cubic', ()), 2: ('cubic', F), 3: ('cubic', I),
    -3: ('cubic', I), 4: ('hexagonal', ()), 5: ('trigonal', ()),
    -5: ('trigonal', ()), 6: ('tetragonal', ()), 7: ('tetragonal', I),
    8: ('orthorhombic', ()), 9: ('orthorhombic', C), -9: ('orthorhombic', C),
    91: ('orthorhombic', A), 10: ('orthorhombic', F), 11: ('orthorhombic', I),
    12: ('monoclinic_c', ()), -12: ('monoclinic_b', ()),
    13: ('monoclinic_c', B), -13: ('monoclinic_b', C), 14: ('triclinic', ())}


def parameters(c):
    system = lattices[c.ibrav][0]
    a, b, cc = c.abc
    x, y, z = c.cos
    k = dict(a=a, b=b, c=cc, cosbc=x, cosac=y, cosab=z)

    if system in ('cubic',):
        k.update(b=a, c=a, cosbc=0, cosac=0, cosab=0)
    elif system == 'hexagonal':
        k.update(b=a, cosbc=0, cosac=0, cosab=-0.5)
    elif system == 'trigonal':
        k.update(b=a, c=a, cosbc=z, cosac=z)
    elif system == 'tetragonal':
        k.update(b=a, cosbc=0, cosac=0, cosab=0)
    elif system == 'orthorhombic':
        k.update(cosbc=0, cosac=0, cosab=0)
    elif system == 'monoclinic_c':
        k.update(cosbc=0, cosac=0)
    elif system == 'monoclinic_b':
        k.update(cosbc=0, cosab=0)

    return system, k


def conventional(k):
    """Metric tensor of conventional cell."""

    a, b, c = k['a'], k['b'], k['c']

    return np.array([
        [a * a, a * b * k['cosab'], a * c * k['cosac']],
        [a * b * k['cosab'], b * b, b * c * k['cosbc']],
        [a * c * k['cosac'], b * c * k['cosbc'], c * c]])


# primitive vectors in terms of conventional ones

transform = {
    1: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    2: [[-.5, 0, .5], [0, .5, .5], [-.5, .5, 0]],
    3: [[.5, .5, .5], [-.5, .5, .5], [-.5, -.5, .5]],
    -3: [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]],
    7: [[.5, -.5, .5], [.5, .5, .5], [-.5, -.5, .5]],
    9: [[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]],
    -9: [[.5, -.5, 0], [.5, .5, 0], [0, 0, 1]],
    91: [[1, 0, 0], [0, .5, -.5], [0, .5, .5]],
    10: [[.5, 0, .5], [.5, .5, 0], [0, .5, .5]],
    11: [[.5, .5, .5], [-.5, .5, .5], [-.5, -.5, .5]],
    13: [[.5, 0, -.5], [0, 1, 0], [.5, 0, .5]],
    -13: [[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]],
    }

length = st.floats(2.0, 9.0).map(lambda x: round(x, 3))
cosine = st.one_of(st.just(0.0), st.floats(-0.4, 0.45).map(
    lambda x: round(x, 3)))


@P.sub('primitives', quick=6000, ibrav=st.sampled_from(sorted(lattices)),
    abc=st.tuples(length, length, length), cos=st.tuples(cosine, cosine,
    cosine), bohr=st.booleans(), mode=st.sampled_from(['abc', 'celldm']),
    tuple_=st.booleans())
def primitives(c):
    system, k = parameters(c)

    celldm = [k['a'] / a0, k['b'] / k['a'], k['c'] / k['a'], 0.0, 0.0, 0.0]

    if c.ibrav == 14:
        celldm[3:] = [k['cosbc'], k['cosac'], k['cosab']]
    elif c.ibrav in (5, -5, 12, 13):
        celldm[3] = k['cosab']
    elif c.ibrav in (-12, -13):
        celldm[4] = k['cosac']

    old = list(celldm)

    if c.mode == 'abc':
        p = elphmod.bravais.primitives(ibrav=c.ibrav, bohr=c.bohr, **k)
        again = elphmod.bravais.primitives(ibrav=c.ibrav, bohr=c.bohr, **k)
    else:
        x = tuple(celldm) if c.tuple_ else celldm
        p = elphmod.bravais.primitives(ibrav=c.ibrav, bohr=c.bohr, celldm=x)
        again = elphmod.bravais.primitives(ibrav=c.ibrav, bohr=c.bohr,
            celldm=x)
        equal(list(x), old, 'celldm modified')

    equal(again, p, 'second call')

    unit = a0 if c.bohr else 1.0

    p = np.array(p) * unit
    equal(p.shape, (3, 3), 'shape')

    G = conventional(k)
    T = np.array(transform.get(c.ibrav, np.eye(3)))

    close(p.dot(p.T), T.dot(G).dot(T.T), 'metric', tol=1e-6)

    volume = np.sqrt(np.linalg.det(G)) / (1 + len(lattices[c.ibrav][1]))
    close(elphmod.bravais.volume(*p), volume, 'volume', tol=1e-6)

    # conventional cell and centering

    conv = np.linalg.inv(T).dot(p)
    close(conv.dot(conv.T), G, 'conventional cell', tol=1e-6)

    for center in lattices[c.ibrav][1]:
        x = np.array(center).dot(conv).dot(np.linalg.inv(p))
        close(x, np.round(x), 'centering', tol=1e-6)

    # orientation

    if system in ('cubic', 'tetragonal', 'orthorhombic', 'hexagonal'):
        axes = np.diag([k['a'], k['b'], k['c']])
        if system == 'hexagonal':
            axes[1] = k['a'] * np.array([-0.5, np.sqrt(0.75), 0])
        close(conv, axes, 'orientation', tol=1e-6)
    elif system == 'monoclinic_b':
        close(conv[0], [k['a'], 0, 0], 'first axis', tol=1e-6)
        close(conv[1], [0, k['b'], 0], 'unique axis', tol=1e-6)
        check(conv[2, 2] > 0, 'orientation')
    elif system in ('monoclinic_c', 'triclinic'):
        close(conv[0], [k['a'], 0, 0], 'first axis', tol=1e-6)
        close(conv[1, 2], 0.0, 'second axis', tol=1e-6)
        check(conv[1, 1] > 0 and conv[2, 2] > 0, 'orientation')
    elif c.ibrav == 5:
        check(np.ptp(p[:, 2]) < 1e-6 and p[0, 2] > 0, 'threefold axis z')
        close(p[1, 0], 0.0, 'second vector in yz plane')
        check(p[1, 1] > 0 and p[0, 0] > 0, 'orientation')
    elif c.ibrav == -5:
        check(np.ptp(p.sum(axis=1)) < 1e-6 and p.sum() > 0, 'axis 111')
        for i in range(3):
            close(p[i], np.roll(p[0], i), 'cyclic', tol=1e-6)

    return len(set(c.abc)) == 3


@P.sub('free', quick=720, seed=seeds, bohr=st.booleans(),
    units=st.sampled_from(['alat', 'bohr', 'angstrom', 'Angstrom', '{Bohr}',
        '(angstrom)', '{Angstrom}', '(bohr)']),
    a=length, celldm=st.booleans(), integer=st.booleans())
def free(c):
    g = rng(c.seed)
    r = g.integers(1, 5, (3, 3)) if c.integer else g.uniform(-3, 3, (3, 3))
    old = r.copy()

    kwargs = dict(celldm=[c.a / a0]) if c.celldm else dict(a=c.a)

    p = elphmod.bravais.primitives(ibrav=0, bohr=c.bohr, r_cell=r,
        cell_units=c.units, **kwargs) * (a0 if c.bohr else 1.0)

    factor = dict(alat=c.a, bohr=a0, angstrom=1.0)[
        c.units.lower().strip('{}()')]

    close(p, r * factor, 'cell', tol=1e-6)
    equal(r, old, 'cell modified')

    return True


@P.sub('vectors', quick=2400, seed=seeds, angle=st.floats(10, 170),
    angle0=st.floats(-180, 360), n=sizes(1, 5, 12))
def vectors(c):
    g = rng(c.seed)

    # translations in two dimensions

    for two in True, False:
        a1, a2 = elphmod.bravais.translations(c.angle, c.angle0,
            two_dimensional=two)

        close([np.linalg.norm(a1), np.linalg.norm(a2)], [1, 1], 'length')
        close(a1.dot(a2), np.cos(np.radians(c.angle)), 'angle')
        close(a1[:2], [np.cos(np.radians(c.angle0)),
            np.sin(np.radians(c.angle0))], 'direction')
        close(a1[0] * a2[1] - a1[1] * a2[0], np.sin(np.radians(c.angle)),
            'orientation')
        equal(len(a1), 2 if two else 3, 'dimensions')

        if not two:
            close([a1[2], a2[2]], [0, 0], 'in plane')

    a1, a2 = elphmod.bravais.translations()
    close(a1.dot(a2), -0.5, 'default angle')

    # rotations

    v = g.standard_normal((3, 4))
    x, y = g.uniform(-7, 7, 2)

    for d in 2, 3:
        u = v[:d]
        R = elphmod.bravais.rotate(u, x, two_dimensional=d == 2)
        z = (u[0] + 1j * u[1]) * np.exp(1j * x)
        close(R[:2], [z.real, z.imag], 'rotation')
        if d == 3:
            close(R[2], u[2], 'third component')
        close(elphmod.bravais.rotate(R, y, d == 2),
            elphmod.bravais.rotate(u, x + y, d == 2), 'composition')

    # reciprocal lattice

    a = g.standard_normal((2, 2)) * 3
    old = a.copy()

    if abs(np.linalg.det(a)) > 0.3:
        b = np.array(elphmod.bravais.reciprocals(*a))
        close(a.dot(b.T), np.eye(2), 'reciprocal vectors')
        close(elphmod.bravais.volume(*a), abs(np.linalg.det(a)), 'area')
        close(elphmod.bravais.volume(*b), 1 / abs(np.linalg.det(a)),
            'reciprocal area')
        close(np.array(elphmod.bravais.reciprocals(*b)), a, 'involution')
        equal(a, old, 'vectors modified')

    a = g.standard_normal((3, 3)) * 3
    old = a.copy()

    if abs(np.linalg.det(a)) > 0.5:
        b = np.array(elphmod.bravais.reciprocals(*a))
        close(a.dot(b.T), np.eye(3), 'reciprocal vectors')
        close(elphmod.bravais.volume(*a), abs(np.linalg.det(a)), 'volume')
        close(np.array(elphmod.bravais.reciprocals(*b)), a, 'involution')

        # coordinates

        x = g.standard_normal((c.n, 3))
        r = elphmod.bravais.crystal_to_cartesian(x, *a)
        close(r, x.dot(a), 'Cartesian coordinates')
        close(elphmod.bravais.cartesian_to_crystal(r, *a), x,
            'crystal coordinates', tol=1e-7)
        equal(a, old, 'vectors modified')

        x = g.standard_normal((c.n, 2))
        close(elphmod.bravais.crystal_to_cartesian(x, a[0, :2], a[1, :2]),
            x.dot(a[:2, :2]), 'Cartesian coordinates in two dimensions')

    close(elphmod.bravais.volume([2.5]), 2.5, 'length')

    return True


label_symmetry = { # order of little co-group, star-invariant
    1: dict(G=48, X=16, M=16, R=48),
    2: dict(G=48, X=16, L=12, W=8, U=4, K=4),
    3: dict(G=48, H=48, P=24, N=8),
    -3: dict(G=48, H=48, P=24, N=8),
    4: dict(G=24, A=24, M=8, L=8, K=12, H=12),
    6: dict(G=16, X=8, M=16, Z=16, R=8, A=16)}

# Cartesian coordinates in units of 2 pi / (a, b, c) modulo reciprocal lattice

label_cartesian = {
    7: dict(X=(.5, 0, 0), M=(.5, .5, 0), Z=(0, 0, .5), R=(.5, 0, .5),
        A=(.5, .5, .5)),
    8: dict(X=(.5, 0, 0), Y=(0, .5, 0), Z=(0, 0, .5), S=(.5, .5, 0),
        T=(0, .5, .5), U=(.5, 0, .5), R=(.5, .5, .5)),
    9: dict(Y=(1, 0, 0), y=(0, 1, 0), Z=(0, 0, .5), T=(1, 0, .5),
        t=(0, 1, .5), S=(.5, .5, 0), R=(.5, .5, .5)),
    -9: dict(Y=(1, 0, 0), y=(0, 1, 0), Z=(0, 0, .5), T=(1, 0, .5),
        t=(0, 1, .5), S=(.5, .5, 0), R=(.5, .5, .5))}

monoclinic = 'BYZDCAE'

_point_groups = {}


def point_group(G):
    """Integer matrices that preserve the metric."""

    key = tuple(np.round(G, 6).ravel())

    if key not in _point_groups:
        W = np.array(list(itertools.product([-1, 0, 1], repeat=9)))
        W = W.reshape((-1, 3, 3))
        ok = np.all(np.abs(np.einsum('nia,ij,njb->nab', W, G, W) - G) < 1e-6,
            axis=(1, 2))
        _point_groups[key] = W[ok]

    return _point_groups[key]


@P.sub('labels', quick=1440, ibrav=st.sampled_from(sorted(label_symmetry)
    + sorted(label_cartesian) + [12, -12]), abc=st.tuples(length, length,
    length), cos=st.tuples(cosine, cosine, cosine))
def labels(c):
    system, k = parameters(c)

    if c.ibrav in (4, 6) and abs(k['a'] / k['c'] - 1) < 0.01:
        return False

    a = elphmod.bravais.primitives(ibrav=c.ibrav, **k)
    b = np.array(elphmod.bravais.reciprocals(*a))

    names = label_symmetry.get(c.ibrav) or label_cartesian.get(c.ibrav) \
        or dict.fromkeys(monoclinic)

    found = []

    for name, expected in names.items():
        path, x, corners = elphmod.bravais.path([name, (0.1, 0.2, 0.3)],
            ibrav=c.ibrav, **k)
        p = path[0] / (2 * np.pi)
        found.append(tuple(p % 1))

        if c.ibrav in label_symmetry:
            number = 0
            for W in point_group(b.dot(b.T)):
                d = W.dot(p) - p
                number += np.allclose(d, np.round(d), atol=1e-9)
            equal(int(number), expected, 'symmetry of %s' % name)
        elif c.ibrav in label_cartesian:
            q = p.dot(b) * [k['a'], k['b'], k['c']]
            close(q, expected, 'coordinates of %s' % name)
        else:
            close(2 * p, np.round(2 * p), 'time-reversal invariance')

            for A, B, C in ['DBY', 'CYZ', 'ABZ', 'EAY', 'EBC', 'EDZ']:
                if name == A:
                    close(p, sum(elphmod.bravais.path([n, (0.1, 0.2, 0.3)],
                        ibrav=c.ibrav, **k)[0][0] / (2 * np.pi)
                        for n in (B, C)), 'sum of other points')

        if abs(c.ibrav) not in (9, 12):
            for N in itertools.product((-1, 0, 1), repeat=3):
                check(np.linalg.norm(p.dot(b)) <= np.linalg.norm((p
                    + N).dot(b)) + 1e-9, 'not the closest image', name=name)

    if abs(c.ibrav) != 9: # different images of same point
        equal(len(set(found)), len(found),
            'labels of different points')

    return True


number = st.floats(-1, 1).map(lambda x: round(x, 3))
corner = st.one_of(st.sampled_from(['G', 'M', 'K', 'A', 'L', 'H']),
    st.just([0.0, 0.0, 0.0]), st.tuples(number, number, number).map(list))


@P.sub('path', quick=7090, corners=st.lists(corner, min_size=2, max_size=6),
    N=st.sampled_from([1, 5, 12.5, 30, 100]), c=length, move=st.sampled_from(
    [0, 0, 1e-3, 0.1]), qe=st.booleans(), recvec=st.booleans(),
    dim=st.sampled_from([3, 3, 2]), general=st.booleans(), seed=seeds)
def path(c):
    points = c.corners

    if c.general:
        points = [[0.1 * ord(x[0]) % 1, -0.25, 0.5][:c.dim] if isinstance(x, str)
            else x[:c.dim] for x in points]
        a = rng(c.seed).normal(size=(c.dim, c.dim)) + np.eye(c.dim)

        if abs(np.linalg.det(a)) < 0.1:
            return False
    elif c.dim == 2:
        points = [x[:2] if not isinstance(x, str) else [0.25, 0.5]
            for x in points]
        a = np.array(elphmod.bravais.translations(120))
    else:
        a = elphmod.bravais.primitives(ibrav=4, a=1.0, c=c['c'])

    b = np.linalg.inv(a).T

    kwargs = dict(ibrav=4, a=1.0, c=c['c'])

    if c.recvec or c.dim == 2 or c.general:
        kwargs['recvec'] = b

    out = elphmod.bravais.path(points, N=c.N, moveG=c.move,
        qe=c.qe and c.dim == 3, **kwargs)

    k, x, corners = out[:3]
    q = k / (2 * np.pi)

    equal(len(k), len(x), 'number of distances')
    equal(len(corners), len(points), 'number of corners')
    equal(corners[0], 0, 'first corner')
    equal(corners[-1], len(k) - 1, 'last corner')

    hex = dict(G=(0, 0, 0), A=(0, 0, .5), M=(0, .5, 0), L=(0, .5, .5),
        K=(1 / 3, 1 / 3, 0), H=(1 / 3, 1 / 3, .5))

    exact = np.array([hex[p] if isinstance(p, str) else p for p in points],
        dtype=float)

    if c.move and any(np.array_equal(s, t) for s, t in zip(exact, exact[1:])):
        return False # zero-length segments

    check(np.all(np.diff(x) >= -1e-12), 'distances increase', x=x)

    total = 0.0
    gamma = [bool(c.move) and not p.any() for p in exact]

    for n, p in enumerate(exact):
        if gamma[n]:
            # shifted along path by fraction of distance of neighbor
            i = corners[n]
            neighbor = q[i - 1] if n else q[i + 1]

            if not (n and corners[n - 1] == i - 1 and gamma[n - 1]):
                close(q[i], c.move * neighbor, 'shifted zone center')

            if 0 < n < len(exact) - 1:
                close(q[i + 1], c.move * q[i + 2], 'shifted zone center')
        else:
            close(q[corners[n]], p, 'corner %d' % n)

        close(x[corners[n]], total, 'distance of corner %d' % n)

        if n + 1 < len(exact):
            d = np.linalg.norm((exact[n + 1] - p).dot(b))
            inner = range(corners[n] + 1, corners[n + 1])

            for i in inner:
                close(np.linalg.norm((q[i] - p).dot(b))
                    + np.linalg.norm((exact[n + 1] - q[i]).dot(b)), d,
                    'point on segment', tol=1e-7)

                if not (gamma[n] and i == corners[n] + 1):
                    close(x[i] - total, np.linalg.norm((q[i] - p).dot(b)),
                        'distance equals path length', tol=1e-7)

            steps = corners[n + 1] - corners[n]

            if gamma[n] and n:
                steps -= 1

            equal(steps, max(1, int(round(c.N * d))), 'number of points')
            total += d

    if len(out) > 3:
        pw = out[3]
        equal(pw['ktyp'], 'crystal_b', 'type')
        equal(pw['nks'], len(points), 'number of corners')
        close(pw['k_points'][:, :c.dim], q[corners], 'corners')

        if c.dim == 3:
            close(pw['k_points'][:, 3], list(np.diff(corners)) + [0],
                'numbers of points')

    return len(points) > 2


@P.sub('GMKG', quick=1440, N=sizes(1, 60, 200), mesh=st.booleans(),
    angle=st.sampled_from([60, 120]), straight=st.booleans(),
    lift=st.booleans(), corner_indices=st.booleans())
def GMKG(c):
    N = 6 * c.N if c.mesh else c.N + 5

    out = elphmod.bravais.GMKG(N, corner_indices=True, mesh=c.mesh,
        angle=c.angle, straight=c.straight, lift_degen=c.lift)
    k, x, corners = out

    out = elphmod.bravais.GMKG(N, corner_indices=c.corner_indices, mesh=c.mesh,
        angle=c.angle, straight=c.straight, lift_degen=c.lift)
    equal(len(out), 2 + c.corner_indices, 'number of results')
    equal(out[0], k, 'path')

    if N % 6:
        out = elphmod.bravais.GMKG(N, mesh=True, angle=c.angle,
            straight=c.straight, lift_degen=c.lift)
        equal(out[0], k, 'mesh requires multiple of six')

    q = np.array(k) / (2 * np.pi)
    m = np.array(s08.metric[c.angle]) / 2 * 4 / 3

    norm = lambda v: np.sqrt(v.dot(m).dot(v))

    equal(len(q), len(x), 'number of distances')
    equal(len(corners), 4, 'corners')
    equal(corners[-1], len(q) - 1, 'last corner')
    check(np.all(np.diff(x) > 0), 'distances increase')

    G, M, K, G2 = q[corners]
    close(G, [0, 0], 'first corner')
    close(G2, [0, 0], 'last corner')
    close(x[corners], [0, 3 ** -0.5, 3 ** -0.5 + 1 / 3, 3 ** -0.5 + 1],
        'distances of corners')
    close(norm(M), 3 ** -0.5, 'M')
    close(2 * M, np.round(2 * M), 'M')
    close(norm(K), 2 / 3, 'K')
    close(3 * K, np.round(3 * K), 'K', tol=1e-7)

    if c.lift:
        check(norm(K) < 2 / 3 - 1e-12, 'degeneracy at K lifted')

    for i in range(len(q) - 1):
        step = norm(q[i + 1] - q[i])

        if c.straight and i == corners[2] - 1:
            continue # jump to equivalent point

        close(step, x[i + 1] - x[i], 'distance equals path length', tol=1e-7)

    for n in range(3):
        for i in range(corners[n], corners[n + 1] + 1):
            if n == 1 and c.straight:
                continue

            close(norm(q[i] - q[corners[n]]) + norm(q[corners[n + 1]] - q[i]),
                norm(q[corners[n + 1]] - q[corners[n]]), 'point on segment',
                tol=1e-7)

    if c.straight and corners[2] > corners[1] + 1:
        # direction does not change at K
        s = q[corners[1] + 1] - q[corners[1]]
        t = q[corners[2] + 1] - q[corners[2]]
        close(abs(s.dot(m).dot(t)) / norm(s) / norm(t), 1.0, 'straight',
            tol=1e-6)

    if c.mesh:
        close(N * q, np.round(N * q), 'points on mesh', tol=1e-6)
        inside = np.round(N * np.array(q)).astype(int)
        equal(len(q), N + 1, 'all mesh points on path')

    return N > 6


@P.sub('mesh', quick=1440, n=st.lists(sizes(1, 6, 9), min_size=1,
    max_size=4), flat=st.booleans())
def mesh(c):
    points = elphmod.bravais.mesh(*c.n, flat=c.flat)

    expected = np.array([[2 * np.pi * i / n for i, n in zip(m, c.n)]
        for m in np.ndindex(*c.n)])

    if not c.flat:
        expected = expected.reshape((*c.n, len(c.n)))

    close(points, expected, 'mesh points')
    check(points.flags['C_CONTIGUOUS'] and points.flags['OWNDATA']
        or points.base is None, 'independent array')

    if len(c.n) == 3:
        for weights in False, True:
            text = io.StringIO()

            with contextlib.redirect_stdout(text):
                elphmod.bravais.kpoints(*c.n, weights=weights)

            lines = text.getvalue().strip().split('\n')
            equal(int(lines[0]), int(np.prod(c.n)), 'number of k points')
            table = np.array([list(map(float, line.split()))
                for line in lines[1:]])
            close(table[:, :3], expected.reshape((-1, 3)) / (2 * np.pi),
                'k points', tol=1e-9)
            equal(table.shape, (np.prod(c.n), 3 + weights), 'columns')

            if weights:
                close(table[:, 3].sum(), 1.0, 'weights', tol=1e-6)
                close(table[:, 3], np.full(len(table), 1 / len(table)),
                    'weights', tol=1e-9)

    return np.prod(c.n) > 1


@P.sub('outline', quick=720, angle=st.sampled_from([60, 90, 120]),
    angle0=st.floats(-180, 180), seed=seeds)
def outline(c):
    """Corners of Brillouin zone, points on lines."""

    g = rng(c.seed)

    out = np.array(elphmod.bravais.BZ(c.angle, c.angle0))
    b = np.array(elphmod.bravais.reciprocals(*elphmod.bravais.translations(
        c.angle, c.angle0)))

    close(out[0], out[-1], 'closed outline')
    equal(len(out) - 1, 4 if c.angle == 90 else 6, 'number of corners')

    area = 0.0
    for p, q in zip(out, out[1:]):
        area += (p[0] * q[1] - p[1] * q[0]) / 2

    close(area, abs(np.linalg.det(b)), 'area')

    for p in out:
        d = sorted(np.linalg.norm(p - np.dot(m, b))
            for m in itertools.product(range(-2, 3), repeat=2))
        close(d[:3], [np.linalg.norm(p)] * 3, 'corner is equidistant')

    # points between two others

    p, q = g.integers(-4, 5, (2, 3)).astype(float)
    n = int(g.integers(1, 5))

    if not np.array_equal(p, q):
        for i in range(-n, 2 * n + 1):
            x = p + (q - p) * i / n
            equal(bool(elphmod.bravais.point_on_path(x, p, q, eps=1e-9)),
                0 <= i <= n, 'point on path', x=x, p=p, q=q)

            off = np.cross(q - p, [1.0, 0.3, -0.7])

            if np.linalg.norm(off) > 1e-3:
                equal(bool(elphmod.bravais.point_on_path(x + off, p, q)),
                    False, 'point off path')

    return True
