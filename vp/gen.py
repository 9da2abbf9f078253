"""Generators of valid elphmod models, lattices, and meshes."""

import itertools

import numpy as np

import elphmod

from vp.harness import rng, seeds, st, ints, HarnessError

HEX = np.array([[1.0, 0.0, 0.0], [-0.5, np.sqrt(0.75), 0.0], [0.0, 0.0, 1.0]])

# --------------------------------------------------------------------------
# supercells

_small = st.sampled_from([(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1),
    (3, 1, 1), (1, 3, 1), (3, 2, 1), (2, 1, 2), (1, 1, 3), (2, 2, 2), (4, 1, 1),
    (1, 5, 1), (2, 3, 1), (1, 2, 3), (3, 3, 1), (7, 1, 1)])


@st.composite
def supercells(draw, max_cells=9, planar=False):
    """Supercell specification as accepted by ``supercell(*N)``.

    Diagonal entries may be given as scalar integers. General integer matrices
    are Hermite normal forms times unimodular matrices (possibly of negative
    determinant), i.e., every sublattice and also skew bases of it are reached.
    """
    d = draw(_small)

    if planar:
        d = (d[0], d[1], 1)

    while np.prod(d) > max_cells:
        d = tuple(max(1, n - 1) for n in d)

    kind = draw(st.sampled_from(['scalar', 'vector', 'hermite', 'skew',
        'skew']))

    if kind == 'scalar':
        return list(map(int, d))

    N = np.diag(d)

    if kind == 'vector':
        return [list(map(int, row)) if draw(st.booleans()) else int(row[i])
            for i, row in enumerate(N)]

    N[1, 0] = draw(st.integers(0, d[0] - 1))

    if not planar:
        N[2, 0] = draw(st.integers(0, d[0] - 1))
        N[2, 1] = draw(st.integers(0, d[1] - 1))

    if kind == 'skew':
        for i, j, s in draw(st.lists(st.tuples(st.integers(0, 2),
                st.integers(0, 2), st.sampled_from([-1, 1])), max_size=3)):

            if planar and 2 in (i, j):
                continue

            if i == j:
                N[i] *= -1
            else:
                N[i] += s * N[j]

    return [list(map(int, row)) for row in N]


def matrix(N):
    return np.array([n if hasattr(n, '__len__') else [n * (i == j)
        for j in range(3)] for i, n in enumerate(N)])


def args(N):
    """Arguments for ``supercell`` methods (tuples instead of lists)."""

    return [tuple(n) if hasattr(n, '__len__') else n for n in N]


def nontrivial_supercell(N):
    return abs(int(round(np.linalg.det(matrix(N))))) > 1


def folded(K, N):
    """All k (crystal coordinates, period 2 pi) with N k = K modulo 2 pi."""

    N = np.asarray(N)
    n = abs(int(round(np.linalg.det(N))))
    inv = np.linalg.inv(N)
    found = {}
    adj = np.round(inv * np.linalg.det(N)).astype(int)

    for m in itertools.product(range(n), repeat=3):
        # k / 2 pi = inv . m modulo 1
        key = tuple(int(x) for x in (adj.dot(m) % n))

        if key not in found:
            found[key] = np.array(m)

        if len(found) == n:
            break

    if len(found) != n:
        raise HarnessError('folding')

    return np.array([inv.dot(np.asarray(K) + 2 * np.pi * m)
        for m in found.values()])


# --------------------------------------------------------------------------
# lattices

@st.composite
def lattices(draw, planar=False):
    """Right-handed Bravais lattice vectors (bohr) as nested list."""

    kind = draw(st.sampled_from(['cubic', 'hex', 'generic', 'ortho']))

    a = draw(st.sampled_from([4.0, 5.5, 6.3]))
    s = draw(st.sampled_from([0.8, 1.0, 1.3]))

    if kind == 'cubic':
        A = np.eye(3) * a
    elif kind == 'hex':
        A = HEX * a
        A[2] *= s
    elif kind == 'ortho':
        A = np.diag([a, a * s, a * 1.1])
    else:
        A = np.eye(3) + np.array(draw(st.lists(st.sampled_from([-0.2, -0.1,
            0.0, 0.1, 0.15, 0.25]), min_size=9, max_size=9))).reshape((3, 3))
        A *= a

    if planar:
        A[:2, 2] = 0.0
        A[2] = [0.0, 0.0, draw(st.sampled_from([15.0, 20.0]))]

    return A.tolist()


def positions(g, nat, at, planar=False):
    """Distinct positions of basis atoms."""

    x = g.uniform(-0.2, 0.9, (nat, 3))

    if planar:
        x[:, 2] *= 0.1

    for n in range(nat):
        x[n, 0] += 0.3 * n

    return x.dot(at)


def vectors(g, n, box=2, inversion=False, origin=True):
    """Unique lattice vectors."""

    grid = np.array(list(itertools.product(range(-box, box + 1), repeat=3)))

    if inversion:
        half = [R for R in grid if tuple(R) > (0, 0, 0)]
        some = g.permutation(len(half))[:n]
        R = [half[i] for i in some] + [-half[i] for i in some]
        R.append(np.zeros(3, dtype=int))
        R = np.array(R)
        return R[g.permutation(len(R))]

    R = grid[g.permutation(len(grid))[:n]]

    if origin and not np.any(np.all(R == 0, axis=1)):
        R[0] = 0

    return R


def cplx(g, shape):
    return g.standard_normal(shape) + 1j * g.standard_normal(shape)


# --------------------------------------------------------------------------
# models

def decay(g, R, data):
    """Let some elements (except those at the origin) be small or zero."""

    kind = g.integers(6)

    if kind < 2:
        shape = (len(R),) + (1,) * (data.ndim - 1) if kind else data.shape

        scale = 10.0 ** -g.integers(0, 7, shape) if g.random() < 0.5 \
            else 1.0 * (g.random(shape) < 0.6)

        scale = np.array(np.broadcast_to(scale, data.shape))
        scale[~np.any(R, axis=1)] = 1.0

        data = data * scale

    return data


def el_model(g, size=2, nR=4, hermitian=True, real=False, rydberg=False,
        box=2, planar=False):

    el = elphmod.el.Model(rydberg=rydberg)
    el.size = size

    R = vectors(g, nR, box=box)

    if planar:
        R[:, 2] = 0
        R = np.unique(R, axis=0)

    data = decay(g, R, cplx(g, (len(R), size, size)))

    if real:
        data = data.real.astype(complex)

    if hermitian:
        const = {}
        for r, t in zip(R, data):
            for S, T in ((tuple(map(int, r)), t),
                    (tuple(map(int, -r)), t.conj().T)):
                const[S] = const.get(S, 0) + T / 2
        keys = list(const)
        order = g.permutation(len(keys))
        R = np.array([keys[i] for i in order])
        data = np.array([const[keys[i]] for i in order])

    el.R = R
    el.data = data
    el.nk = (4, 4, 4)

    return el


def elel_model(g, size=2, nR=4):
    el = el_model(g, size, nR)
    elel = elphmod.elel.Model()
    elel.size = size
    elel.R = el.R
    elel.data = el.data

    return elel


def ph_model(g, at, nat=2, nR=4, lr=False, lr2d=False, L=None, perp=True,
        quad=False, divide_mass=True, symmetric=True, box=2, nq=(2, 2, 2),
        alph=None, planar=False, polar=False,
        common=False):

    at = np.array(at)

    if lr2d:
        planar = True

    M = g.uniform(1.0, 5.0, nat) * 1e3
    r = positions(g, nat, at, planar=planar)
    names = [['X', 'Ta', 'S', 'H'][i] for i in g.integers(0, 4, nat)]

    eps = Z = Q = None

    if lr or polar:
        A = g.uniform(-0.2, 0.2, (3, 3))
        eps = np.eye(3) * g.uniform(2.0, 4.0) + (A + A.T) / 2

        if lr2d:
            eps[2, :2] = eps[:2, 2] = 0.0
            eps[2, 2] = g.uniform(1.0, 1.2)

        Z = g.uniform(-2.0, 2.0, (nat, 3, 3))
        Z -= Z.mean(axis=0)

        if common: # symmetric force constants also for q = 0
            q = np.linspace(-1.0, 1.0, nat) if nat > 1 else np.zeros(1)
            Z = q[:, np.newaxis, np.newaxis] * Z[0]

        if quad:
            Q = g.uniform(-2.0, 2.0, (nat, 3, 3, 3))
            Q = (Q + Q.swapaxes(2, 3)) / 2

    ph = elphmod.ph.Model(amass=M, at=at, tau=r, atom_order=names, epsil=eps,
        zeu=Z, Q=Q, L=L, perp=perp, lr=lr, lr2d=lr2d, divide_mass=divide_mass,
        alph=alph)

    R = vectors(g, nR, box=box)

    if planar:
        R[:, 2] = 0
        R = np.unique(R, axis=0)

    data = decay(g, R, g.standard_normal((len(R), 3 * nat, 3 * nat)))

    if not divide_mass:
        data *= 1e3

    if symmetric:
        const = {}
        for x, t in zip(R, data):
            for S, T in ((tuple(map(int, x)), t), (tuple(map(int, -x)), t.T)):
                const[S] = const.get(S, 0) + T / 2
        keys = list(const)
        order = g.permutation(len(keys))
        R = np.array([keys[i] for i in order])
        data = np.array([const[keys[i]] for i in order])

    ph.R = R
    ph.data = data
    ph.nq = tuple(nq)

    return ph


def elph_model(g, el, ph, nRg=3, nRk=3, hermitian=False, real=False, box=2,
        planar=False, shared_memory=False, divide_mass=True):

    Rg = vectors(g, nRg, box=box)
    Rk = vectors(g, nRk, box=box)

    if planar:
        Rg[:, 2] = 0
        Rk[:, 2] = 0
        Rg = np.unique(Rg, axis=0)
        Rk = np.unique(Rk, axis=0)

    data = decay(g, Rg, cplx(g, (len(Rg), ph.size, len(Rk), el.size, el.size)))
    data = decay(g, Rk, data.swapaxes(0, 2)).swapaxes(0, 2)

    if real:
        data = data.real.astype(complex)

    elph = elphmod.elph.Model(el=el, ph=ph, Rk=Rk, Rg=Rg,
        dk=np.ones((1, 1, len(Rk)), dtype=int),
        dg=np.ones((1, 1, 1, len(Rg)), dtype=int), divide_mass=divide_mass,
        shared_memory=shared_memory)
    elph.data[...] = data
    elph.gq = np.zeros((ph.size, len(Rk), el.size, el.size), dtype=complex)
    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))

    if hermitian:
        elph.standardize(symmetrize=True)

    return elph


def searchable(nk, a, r1, r2, nsc=2, wide=4, eps=1e-6):
    """Are all nearest images within the range searched by ``wigner``?"""

    nk = np.array(list(nk) + [1] * (3 - len(nk)))
    a = np.asarray(a)

    M = np.array(list(itertools.product(range(-wide, wide + 1), repeat=3)))
    inside = np.all((M >= -nsc) & (M < nsc), axis=1)

    for sgn in 1, -1:
        for m in np.ndindex(*nk):
            shifts = (sgn * (M * nk + np.array(m))).dot(a)

            for x in r1:
                for y in r2:
                    d = np.linalg.norm(shifts + y - x, axis=1)

                    if not inside[d < d.min() + eps].all():
                        return False

    return True
