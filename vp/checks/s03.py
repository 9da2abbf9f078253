"""S03: Real-space models reproduce the mesh data they were made from."""

import itertools

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)

RY = 13.605693122994 # eV

P = Property('S03',
    'Random meshes in one to three dimensions, lattices, basis positions and '
    'Hermitian data. Non-trivial: more than one mesh point and a basis '
    'position that is not at the origin.',
    ['Nearest images are found within the searched range of supercells '
    '(moderately skewed lattices, positions close to the home cell).'])

meshes = st.sampled_from([[1], [2], [3], [4], [1, 1], [2, 2], [2, 3], [3, 3],
    [4, 1], [1, 5], [2, 2, 2], [1, 2, 3], [3, 1, 2], [2, 1, 1], [3, 3, 2],
    [4, 4, 1], [6], [12], [5, 4], [2, 2, 4]])


def mesh_points(nk):
    n = np.array(list(np.ndindex(*nk)))
    k = np.zeros((len(n), 3))
    k[:, :len(nk)] = 2 * np.pi * n / np.array(nk)

    return [tuple(x) for x in n], k


def shape3(nk):
    return np.array(list(nk) + [1] * (3 - len(nk)))


def short(g, nk, a, r1, r2, size1=1, size2=1, box=2):
    """Random couplings of pairs with unique nearest image: {R: matrix}."""

    A = np.array(a) * shape3(nk)[:, None]

    grid = np.array([n for n in itertools.product(range(-3, 4), repeat=3)
        if any(n)])

    inradius = np.linalg.norm(grid.dot(A), axis=1).min() / 2

    data = {}

    for R in itertools.product(range(-box, box + 1), repeat=3):
        for i in range(len(r1)):
            for j in range(len(r2)):
                bond = np.dot(R, a) + r2[j] - r1[i]

                if np.linalg.norm(bond) < 0.98 * inradius:
                    if g.random() < 0.7:
                        if R not in data:
                            data[R] = np.zeros((len(r1) * size1,
                                len(r2) * size2), dtype=complex)

                        data[R][i * size1:(i + 1) * size1,
                            j * size2:(j + 1) * size2] = gen.cplx(g,
                            (size1, size2))

    return data


def evaluate(data, k, shape):
    total = np.zeros(shape, dtype=complex)

    for R, d in data.items():
        total += d * np.exp(1j * np.dot(R, k))

    return total


def hermitian(g, n, size):
    H = gen.cplx(g, (n, size, size))
    return (H + H.conj().swapaxes(1, 2)) / 2


def check_weights(R, nk, a, r1, r2, ndegen, name):
    """Lattice vectors belong to nearest images, weights sum to one."""

    n = shape3(nk)

    images = np.array(list(itertools.product(range(-4, 5), repeat=3))) * n

    for i in range(len(r1)):
        for j in range(len(r2)):
            total = np.zeros(n)

            for x in range(len(R)):
                if ndegen[x, i, j]:
                    total[tuple(R[x] % n)] += 1 / ndegen[x, i, j]

                    b = R[x].dot(a) + r2[j] - r1[i]
                    best = np.linalg.norm(b + images.dot(a), axis=1).min()

                    check(np.linalg.norm(b) < best + 1e-6,
                        '%s: not the nearest image' % name)

            close(total, np.ones(n), '%s: weights' % name)


units = st.booleans()


@P.sub('el', quick=2390, seed=seeds, nk=meshes, a=gen.lattices(),
    size=sizes(1, 3, 6), rydberg=units, rydberg_in=units, fft=st.booleans(),
    zero=st.booleans(), fortran=st.booleans())
def el(c):
    g = rng(c.seed)
    nk = tuple(c.nk)
    a = np.array(c.a)
    r = gen.positions(g, c.size, a)

    if c.zero:
        r[:] = 0.0

    if not gen.searchable(nk, a, r, r):
        return False

    n, k = mesh_points(nk)
    H = hermitian(g, len(k), c.size).reshape((*nk, c.size, c.size))

    el = elphmod.el.Model(rydberg=c.rydberg)

    if c.fft:
        arg = np.asfortranarray(H) if c.fortran else H.copy()
    else:
        arg = np.zeros_like(H)

        for i, m in enumerate(n):
            arg[m] = sum(H[x] * np.exp(-1j * np.array(m + (0,) * (3
                - len(m))).dot(k[j])) for j, x in enumerate(n)) / len(k)

    arg0 = arg.copy()

    elphmod.el.k2r(el, arg, a, r, fft=c.fft, rydberg=c.rydberg_in)

    scale = {(0, 0): 1, (1, 1): 1, (1, 0): RY,
        (0, 1): 1 / RY}[int(c.rydberg_in), int(c.rydberg)]

    for i, m in enumerate(n):
        close(el.H(*k[i]), H[m] * scale, 'k2r: H at mesh point')

    equal(arg, arg0, 'k2r: input changed')
    equal(tuple(el.nk), tuple(shape3(nk)), 'k2r: nk')
    equal(el.size, c.size, 'k2r: size')
    equal(len(set(map(tuple, el.R))), len(el.R), 'k2r: repeated R')

    x = g.uniform(-3, 3, 3)
    close(el.H(*x), el.H(*x).conj().T, 'k2r: Hermitian')

    return len(k) > 1 and not c.zero


@P.sub('el_short', quick=2510, seed=seeds, nk=meshes, a=gen.lattices(),
    size=sizes(1, 3, 6), rydberg=units)
def el_short(c):
    g = rng(c.seed)
    nk = tuple(c.nk)
    a = np.array(c.a)
    r = gen.positions(g, c.size, a)

    if not gen.searchable(nk, a, r, r):
        return False


    data = short(g, nk, a, r, r)
    n, k = mesh_points(nk)

    H = np.array([evaluate(data, x, (c.size, c.size)) for x in k])
    H = H.reshape((*nk, c.size, c.size))

    el = elphmod.el.Model(rydberg=c.rydberg)
    elphmod.el.k2r(el, H, a, r, rydberg=c.rydberg)

    for x in g.uniform(-4, 4, (3, 3)):
        x[len(nk):] *= 1.0
        close(el.H(*x), evaluate(data, x, (c.size, c.size)),
            'k2r: interpolation of short-range model', nk=nk)

    return len(data) > 1


@P.sub('el_chain', quick=1590, seed=seeds, nk=meshes, a=gen.lattices(),
    size=st.integers(1, 2))
def el_chain(c):
    """model -> mesh -> model -> mesh -> model, short_range_model options."""

    g = rng(c.seed)
    nk = tuple(c.nk)
    a = np.array(c.a)
    r = gen.positions(g, c.size, a)

    if not gen.searchable(nk, a, r, r):
        return False

    n, k = mesh_points(nk)
    H = hermitian(g, len(k), c.size).reshape((*nk, c.size, c.size))

    el1 = elphmod.el.Model()
    elphmod.el.k2r(el1, H, a, r)

    el2 = elphmod.el.Model()
    elphmod.el.k2r(el2, elphmod.dispersion.sample(el1.H,
        k.reshape((*nk, 3))), a, r)

    x = g.uniform(-4, 4, 3)
    close(el2.H(*x), el1.H(*x), 'k2r: second round trip')

    # without division by degeneracy

    el3 = elphmod.el.Model(divide_ndegen=False)
    elphmod.el.k2r(el3, H, a, r)

    R, ndegen, wslen = elphmod.bravais.wigner(*map(int, shape3(nk)), a, r)

    check_weights(R, nk, a, r, r, ndegen, 'wigner')

    ref = {tuple(s): d for s, d in zip(R, ndegen)}

    equal(set(map(tuple, el3.R)), set(ref), 'k2r: lattice vectors')

    for s in el3.R:
        d = ref[tuple(s)]
        close(el1.t(*s), np.where(d > 0, el3.t(*s) / np.maximum(d, 1), 0),
            'k2r: division by degeneracy')

    return len(k) > 1


@P.sub('elel', quick=1500, seed=seeds, nk=meshes, a=gen.lattices(),
    size=sizes(1, 3, 6), fft=st.booleans())
def elel(c):
    g = rng(c.seed)
    nk = tuple(c.nk)
    a = np.array(c.a)
    r = gen.positions(g, c.size, a)

    if not gen.searchable(nk, a, r, r):
        return False


    n, k = mesh_points(nk)
    W = hermitian(g, len(k), c.size).reshape((*nk, c.size, c.size))

    if c.fft:
        arg = W.copy()
    else:
        arg = np.zeros_like(W)

        for m in n:
            arg[m] = sum(W[x] * np.exp(-1j * np.array(m + (0,) * (3
                - len(m))).dot(k[j])) for j, x in enumerate(n)) / len(k)

    arg0 = arg.copy()

    m = elphmod.elel.Model()
    elphmod.elel.q2r(m, arg, a, r, fft=c.fft)

    for i, x in enumerate(n):
        close(m.W(*k[i]), W[x], 'elel.q2r: W at mesh point')

    equal(m.size, c.size, 'elel.q2r: size')
    equal(arg, arg0, 'elel.q2r: input changed')

    data = short(g, nk, a, r, r)

    W = np.array([evaluate(data, x, (c.size, c.size)) for x in k])
    elphmod.elel.q2r(m, W.reshape((*nk, c.size, c.size)), a, r)

    for x in g.uniform(-4, 4, (3, 3)):
        close(m.W(*x), evaluate(data, x, (c.size, c.size)),
            'elel.q2r: interpolation of short-range model')

    return len(k) > 1


def base_ph(g, a, nat, divide_mass):
    return elphmod.ph.Model(amass=g.uniform(1, 5, nat) * 1e3, at=a,
        tau=gen.positions(g, nat, a), atom_order=['X'] * nat,
        divide_mass=divide_mass)


def mass_scale(ph):
    M = np.sqrt(np.repeat(ph.M, 3))
    return np.outer(M, M)


@P.sub('ph', quick=4060, seed=seeds, nq=meshes, a=gen.lattices(),
    nat=sizes(1, 2, 4), divide_mass=st.booleans(),
    divide_mass_in=st.booleans(), nq_as=st.sampled_from(['infer', 'tuple',
    'scalar', 'flat']), short_range=st.booleans())
def ph(c):
    g = rng(c.seed)
    nq = tuple(c.nq)
    a = np.array(c.a)

    ph = base_ph(g, a, c.nat, c.divide_mass)
    size = 3 * c.nat

    if not gen.searchable(nq, a, ph.r, ph.r):
        return False

    n, q = mesh_points(nq)

    if c.short_range:
        data = short(g, nq, a, ph.r, ph.r, 3, 3)
        real = {}

        for R, d in data.items():
            d = d.real
            for S, e in ((R, d), (tuple(-x for x in R), d.T)):
                real[S] = real.get(S, 0) + e / 2

        def ref(x):
            return evaluate(real, x, (size, size))
    else:
        C = g.standard_normal((*nq, size, size))

        def ref(x):
            D = sum(C[m] * np.exp(1j * np.dot(m, x[:len(nq)])) for m in n)
            return (D + D.conj().T) / 2

    D = np.array([ref(x) for x in q]).reshape((*nq, size, size))
    D0 = D.copy()

    kwargs = {}

    if c.nq_as == 'tuple':
        kwargs['nq'] = nq
    elif c.nq_as == 'flat':
        kwargs['nq'] = nq
        D = D.reshape((-1, size, size))
        D0 = D.copy()
    elif c.nq_as == 'scalar' and len(set(nq)) == 1:
        kwargs['nq'] = nq[0]

    elphmod.ph.q2r(ph, D_full=D, divide_mass=c.divide_mass_in, **kwargs)

    equal(D, D0, 'ph.q2r: input changed')
    equal(tuple(ph.nq), tuple(shape3(nq)), 'ph.q2r: nq')
    equal((ph.size, ph.nat), (size, c.nat), 'ph.q2r: size')

    scale = {(0, 0): 1, (1, 1): 1, (1, 0): mass_scale(ph),
        (0, 1): 1 / mass_scale(ph)}[int(c.divide_mass_in),
        int(c.divide_mass)]

    points = list(q)

    if c.short_range:
        points += list(g.uniform(-4, 4, (3, 3)))

    for x in points:
        close(ph.D(*x) / scale, ref(x), 'ph.q2r: D', short=c.short_range)

    x = g.uniform(-4, 4, 3)
    close(ph.D(*x), ph.D(*x).conj().T, 'ph.q2r: Hermitian')

    return len(q) > 1


def symmetric_ifc(g, a, r, nq, group):
    """Random force constants invariant under point group: {R: matrix}."""

    data = short(g, (nq, nq), a, r, r, 3, 3, box=2)
    nat = len(r)
    inv = np.linalg.inv(a)
    result = {}

    for R, d in data.items():
        if R[2]:
            continue

        for O in group:
            for i in range(nat):
                for j in range(nat):
                    bond = r[j] - r[i] + np.dot(R, a)
                    S = (O.dot(bond) - r[j] + r[i]).dot(inv)
                    S_ = np.round(S).astype(int)
                    assert np.allclose(S, S_, atol=1e-8)
                    block = O.dot(d.real[3 * i:3 * i + 3,
                        3 * j:3 * j + 3]).dot(O.T) / len(group)

                    for T, k, l, e in ((tuple(S_), i, j, block),
                            (tuple(-S_), j, i, block.T)):

                        if T not in result:
                            result[T] = np.zeros((3 * nat, 3 * nat))

                        result[T][3 * k:3 * k + 3, 3 * l:3 * l + 3] += e / 2

    return result


@P.sub('ph_irr', quick=730, seed=seeds, nq=sizes(1, 7, 10),
    angle=st.sampled_from([60, 120, 90]), nat=st.integers(1, 3),
    divide_mass=st.booleans(), order=st.booleans(), cell=st.sampled_from([3.1,
    6.0]))
def ph_irr(c):
    """Dynamical matrices on the irreducible wedge of q points."""

    g = rng(c.seed)
    a1, a2 = elphmod.bravais.translations(180 - c.angle)
    a = np.zeros((3, 3))
    a[0, :2] = a1
    a[1, :2] = a2
    a[2, 2] = 4.0
    a *= c.cell

    # all atoms on sites that are mapped onto images of themselves

    if c.angle == 90:
        sites = [(0, 0), (0.5, 0.5), (0, 0.5)]
    else:
        sites = [(0, 0), (1 / 3, 2 / 3), (2 / 3, 1 / 3)]

        if c.angle == 120: # lattice angle 60
            sites = [(0, 0), (1 / 3, 1 / 3), (2 / 3, 2 / 3)]

    which = g.integers(0, 3, c.nat)
    r = np.array([[*sites[w], 0.05 * i] for i, w in enumerate(which)]).dot(a)

    group = []

    for phi in ([0] if c.angle == 90 else [0, 2 * np.pi / 3, 4 * np.pi / 3]):
        O = np.array([[np.cos(phi), -np.sin(phi), 0],
            [np.sin(phi), np.cos(phi), 0], [0, 0, 1]])

        group.append(O)

        # mirror: x -> -x maps the 60 degree lattice sites onto themselves
        # only if they are on the mirror plane (or its images)

        group.append(np.diag([-1.0, 1.0, 1.0]).dot(O))

    # keep to sites compatible with the mirror

    inv = np.linalg.inv(a)

    for O in group:
        for x in r:
            s = (O.dot(x) - x).dot(inv)
            if not np.allclose(s, np.round(s), atol=1e-8):
                return False

    ifc = symmetric_ifc(g, a, r, c.nq, group)
    size = 3 * c.nat

    ph = elphmod.ph.Model(amass=g.uniform(1, 5, c.nat) * 1e3, at=a, tau=r,
        atom_order=['X'] * c.nat, divide_mass=c.divide_mass)

    if c.angle == 90:
        # only reflection and time reversal are used
        q_irr = sorted(set(min((q1, q2), (-q1 % c.nq, q2), (q1, -q2 % c.nq),
            (-q1 % c.nq, -q2 % c.nq)) for q1 in range(c.nq)
            for q2 in range(c.nq)))
    else:
        q_irr = sorted(elphmod.bravais.irreducibles(c.nq, angle=c.angle))

    if c.order:
        g.shuffle(q_irr)

    q_irr = 2 * np.pi * np.array(q_irr, dtype=float) / c.nq

    D_irr = np.array([evaluate(ifc, (*q, 0), (size, size)) for q in q_irr])

    elphmod.ph.q2r(ph, D_irr=D_irr, q_irr=q_irr, nq=c.nq, angle=c.angle,
        divide_mass=c.divide_mass)

    equal(tuple(ph.nq), (c.nq, c.nq, 1), 'ph.q2r: nq')

    for q1 in range(c.nq):
        for q2 in range(c.nq):
            q = 2 * np.pi * q1 / c.nq, 2 * np.pi * q2 / c.nq, 0.0

            close(ph.D(*q), evaluate(ifc, q, (size, size)),
                'ph.q2r: D from irreducible wedge', tol=1e-7, q=(q1, q2))

    for q in g.uniform(-4, 4, (2, 3)):
        close(ph.D(*q), evaluate(ifc, q, (size, size)),
            'ph.q2r: interpolated D from irreducible wedge', tol=1e-7)

    return c.nq > 1


small_meshes = st.sampled_from([[1], [2], [3], [1, 2], [2, 2], [2, 1, 1],
    [1, 2, 2], [2, 1, 2]])


@P.sub('elph', quick=3300, thorough=800, seed=seeds, nq=small_meshes,
    nk=small_meshes, a=gen.lattices(), nat=st.integers(1, 2),
    size=st.integers(1, 2), divide_mass=st.booleans(),
    divide_mass_in=st.booleans(), shared=st.booleans(),
    flat=st.booleans())
def elph(c):
    g = rng(c.seed)
    a = np.array(c.a)
    nq = tuple(c.nq)
    nk = tuple(c.nk)

    ph = base_ph(g, a, c.nat, True)
    ph.data = np.zeros((1, ph.size, ph.size))
    ph.R = np.zeros((1, 3), dtype=int)

    el = elphmod.el.Model()
    el.size = c.size
    r = gen.positions(g, c.size, a)

    if not (gen.searchable(nq, a, r, ph.r) and gen.searchable(nk, a, r, r)):
        return False

    m = elphmod.elph.Model(el=el, ph=ph, divide_mass=c.divide_mass)

    _, q = mesh_points(nq)
    _, k = mesh_points(nk)

    scale = np.sqrt(np.repeat(ph.M, 3))[:, None, None]
    scale = {(0, 0): 1, (1, 1): 1, (1, 0): scale, (0, 1): 1 / scale}[
        int(c.divide_mass_in), int(c.divide_mass)]

    for turn in range(2): # second time with known Wigner-Seitz cell
        G = gen.cplx(g, (*nq, ph.size, *nk, c.size, c.size))
        arg = G.copy()

        if c.flat:
            arg = arg.reshape((len(q), ph.size, *nk, c.size, c.size))

        arg0 = arg.copy()

        elphmod.elph.q2r(m, nq, nk, arg, r if turn == 0 else None,
            divide_mass=c.divide_mass_in, shared_memory=c.shared)

        equal(arg, arg0, 'elph.q2r: input changed')

        G = G.reshape((len(q), ph.size, len(k), c.size, c.size))

        for i, x in enumerate(q):
            for j, y in enumerate(k):
                close(m.g(*x, *y) / scale, G[i, :, j],
                    'elph.q2r: g at mesh point', turn=turn)

        check_weights(np.array(m.Rg), nq, a, r, ph.r, m.dg[0].transpose(2, 0,
            1), 'elph.q2r: Rg')

        check_weights(np.array(m.Rk), nk, a, r, r, m.dk.transpose(2, 1, 0),
            'elph.q2r: Rk')

    # short-range coupling is interpolated exactly

    data = short(g, nq, a, r, ph.r, 1, 3, box=1)
    data2 = short(g, nk, a, r, r, 1, 1, box=1)

    def ref(q, k):
        A = evaluate(data, q, (c.size, ph.size))
        B = evaluate(data2, k, (c.size, c.size))
        return np.einsum('ax,ab->xab', A, B)

    G = np.array([[ref(x, y) for y in k] for x in q]).transpose(0, 2, 1, 3, 4)

    elphmod.elph.q2r(m, nq, nk, G, None, divide_mass=c.divide_mass_in)

    for x, y in g.uniform(-4, 4, (2, 2, 3)):
        close(m.g(*x, *y) / scale, ref(x, y),
            'elph.q2r: interpolation of short-range coupling')

    return len(q) * len(k) > 1


@P.sub('elph_update', quick=2950, thorough=400, seed=seeds,
    nq=st.sampled_from([[1, 1, 1], [2, 1, 1], [2, 2, 1]]),
    nk=st.sampled_from([[1, 1, 1], [2, 1, 1], [1, 2, 2]]),
    a=gen.lattices(), nat=st.integers(1, 2), size=st.integers(1, 2),
    divide_mass=st.booleans())
def elph_update(c):
    """sample_orig + update_short_range reproduce the original mesh."""

    g = rng(c.seed)
    a = np.array(c.a)

    ph = base_ph(g, a, c.nat, True)
    ph.data = np.zeros((1, ph.size, ph.size))
    ph.R = np.zeros((1, 3), dtype=int)
    ph.nq = tuple(c.nq)

    el = elphmod.el.Model()
    el.size = c.size
    el.nk = tuple(c.nk)
    r = gen.positions(g, c.size, a)

    if not (gen.searchable(c.nq, a, r, ph.r) and gen.searchable(c.nk, a, r, r)):
        return False

    m = elphmod.elph.Model(el=el, ph=ph, divide_mass=c.divide_mass)

    _, q = mesh_points(c.nq)
    _, k = mesh_points(c.nk)

    G = gen.cplx(g, (*c.nq, ph.size, *c.nk, c.size, c.size))

    elphmod.elph.q2r(m, c.nq, c.nk, G, r, divide_mass=c.divide_mass)

    m.sample_orig()
    m.data[...] = 0.0
    m.update_short_range()

    G = G.reshape((len(q), ph.size, len(k), c.size, c.size))

    for i, x in enumerate(q):
        for j, y in enumerate(k):
            close(m.g(*x, *y), G[i, :, j], 'elph: update_short_range')

    # same for phonons

    ph = gen.ph_model(g, a, c.nat, 3, nq=c.nq, divide_mass=c.divide_mass)
    D = [ph.D(*x) for x in q]
    ph.sample_orig()
    ph.data = ph.data * 0
    ph.update_short_range()

    for i, x in enumerate(q):
        close(ph.D(*x), D[i], 'ph: update_short_range')

    return len(q) * len(k) > 1
