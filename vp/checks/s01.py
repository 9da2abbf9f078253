"""S01: mapping models to supercells and back preserves the physics."""

from vp.harness import *
from vp import gen

import elphmod

P = Property('S01', 'Random tight-binding, mass-spring, interaction, and '
    'coupling models (also non-Hermitian, complex, polar in 2D and 3D, with '
    'quadrupoles) are mapped onto random supercells (scalars, tuples, sheared, '
    'left-handed). Non-trivial: more than one unit cell per supercell.')

point = st.lists(st.sampled_from([0.0, 0.3, -1.7, 2.9, 5.0, np.pi]), min_size=3,
    max_size=3)


def phases(k, cells):
    return np.exp(1j * np.array(cells).dot(k))


def bloch(f, K, N, cells):
    """Supercell matrix from matrices of primitive cell (Bloch theorem)."""

    M = gen.matrix(N)
    ks = gen.folded(K, M)
    n = len(ks)

    total = 0

    for k in ks:
        w = phases(k, cells)
        F = f(*k)
        total = total + np.einsum('i,ab,j->iajb', w, F, w.conj()) / n

    size = F.shape[0]

    return np.reshape(total, (n * size, n * size))


def check_cells(cells, N, message):
    M = gen.matrix(N)
    n = abs(int(round(np.linalg.det(M))))
    inv = np.linalg.inv(M)

    check(len(cells) == n, '%s: number of cells' % message, cells=cells, N=N)

    x = np.array([np.dot(cell, inv) for cell in cells])
    check(np.all(x > -1e-9) and np.all(x < 1 - 1e-9),
        '%s: cell outside of supercell' % message, cells=cells, N=N)
    check(len(set(map(tuple, cells))) == n, '%s: repeated cell' % message)


def check_N(model, N, message):
    check(hasattr(model, 'N'), '%s: attribute N missing' % message)
    equal(np.array(model.N), gen.matrix(N), '%s: N' % message)


@P.sub('lattice', quick=4800, N=gen.supercells(max_cells=16), n=ints(-9, 9, 3))
def lattice(c):
    """Definition of supercell and mapping of lattice vectors onto it."""

    M = gen.matrix(c.N)
    n = abs(int(round(np.linalg.det(M))))

    sc = elphmod.bravais.supercell(*gen.args(c.N))

    equal(int(sc[0]), n, 'number of unit cells')
    equal(np.array(sc[1]), M, 'supercell vectors')

    # reciprocal supercell: N_i . B_j = N delta_ij
    equal(M.dot(np.array(sc[2]).T), n * np.eye(3, dtype=int), 'duality')

    check_cells(sc[3], c.N, 'supercell')

    R, r = elphmod.bravais.to_supercell(tuple(c.n), sc)
    equal(np.dot(R, M) + np.array(sc[3][r]), np.array(c.n), 'decomposition')

    return n > 1


@P.sub('el', quick=1920, seed=seeds, size=sizes(1, 3, 6),
    nR=sizes(1, 6, 20), hermitian=st.booleans(), rydberg=st.booleans(),
    N=gen.supercells(), K=point)
def el(c):
    el = gen.el_model(rng(c.seed), c.size, c.nR, c.hermitian,
        rydberg=c.rydberg)
    R0, data0 = el.R.copy(), el.data.copy()

    sc = el.supercell(*gen.args(c.N))

    check_cells(sc.cells, c.N, 'el')
    check_N(sc, c.N, 'el')
    equal(sc.size, len(sc.cells) * c.size, 'el: size')
    equal(sc.rydberg, c.rydberg, 'el: rydberg')

    H = sc.H(*c.K)
    close(H, bloch(el.H, c.K, c.N, sc.cells), 'el: supercell Hamiltonian',
        N=c.N, K=c.K)

    # element access is consistent with Fourier transform

    if c.hermitian:
        close(np.linalg.eigvalsh(H), np.sort(np.concatenate([
            np.linalg.eigvalsh(el.H(*k))
            for k in gen.folded(c.K, gen.matrix(c.N))])), 'el: folded bands')

    # original model is untouched

    equal(el.R, R0, 'el: original R')
    equal(el.data, data0, 'el: original data')

    return gen.nontrivial_supercell(c.N)


@P.sub('el_sparse', quick=720, seed=seeds, size=sizes(1, 3, 6),
    nR=sizes(1, 6, 20), N=gen.supercells())
def el_sparse(c):
    el = gen.el_model(rng(c.seed), c.size, c.nR, True, real=True)

    sc = el.supercell(*gen.args(c.N), sparse=True)
    full = el.supercell(*gen.args(c.N))

    check_cells(sc.cells, c.N, 'el')
    check_N(sc, c.N, 'el sparse')
    close(sc.Hs.toarray(), bloch(el.H, (0, 0, 0), c.N, sc.cells),
        'el: sparse Hamiltonian')
    close(sc.Hs.toarray(), full.H().real, 'el: sparse versus dense')

    return gen.nontrivial_supercell(c.N)


@P.sub('el_compose', quick=600, seed=seeds, size=st.integers(1, 2),
    nR=st.integers(1, 5), N=gen.supercells(max_cells=4),
    N2=gen.supercells(max_cells=3), K=point)
def el_compose(c):
    """Supercell of supercell is supercell with product of transforms."""

    el = gen.el_model(rng(c.seed), c.size, c.nR, True)

    twice = el.supercell(*gen.args(c.N)).supercell(*gen.args(c.N2))
    M = gen.matrix(c.N2).dot(gen.matrix(c.N))
    once = el.supercell(*map(tuple, M.tolist()))

    close(np.linalg.eigvalsh(twice.H(*c.K)), np.linalg.eigvalsh(once.H(*c.K)),
        'el: composition of supercells', N=c.N, N2=c.N2)

    return gen.nontrivial_supercell(c.N) and gen.nontrivial_supercell(c.N2)


@P.sub('el_unit_cell', quick=1200, seed=seeds, size=sizes(1, 3, 6),
    nR=sizes(1, 6, 20), hermitian=st.booleans(), rydberg=st.booleans(),
    phase=st.sampled_from(['any', 'any', 'imaginary', 'sparse']),
    N=gen.supercells(), K=point)
def el_unit_cell(c):
    el = gen.el_model(rng(c.seed), c.size, c.nR, c.hermitian,
        rydberg=c.rydberg)

    if c.phase == 'imaginary': # currents, spin-orbit coupling
        el.data = 1j * el.data.imag
    elif c.phase == 'sparse':
        el.data = el.data * (rng(c.seed + 1).random(el.data.shape) < 0.3)

    uc = el.supercell(*gen.args(c.N)).unit_cell()

    equal(uc.size, el.size, 'el: size')
    equal(uc.rydberg, el.rydberg, 'el: energy unit after unit_cell')
    equal(uc.divide_ndegen, el.divide_ndegen, 'el: divide_ndegen')

    for R, data in zip(el.R, el.data):
        close(uc.t(*R), data, 'el: hopping after round trip', tol=1e-12)

    close(uc.H(*c.K), el.H(*c.K), 'el: Hamiltonian after round trip')

    return gen.nontrivial_supercell(c.N)


ph_kind = st.sampled_from(['sr', 'sr', 'sr', 'lr', 'quad', '2d', '2dL',
    '2dLquad', 'polar'])


def make_ph(c, g):
    planar = c.kind.startswith('2d')
    a = np.array(c.a)

    if planar:
        a[:2, 2] = 0.0
        a[2] = [0.0, 0.0, 18.0]

    return gen.ph_model(g, a, c.nat, c.nR,
        lr=c.kind not in ('sr', 'polar'), polar=c.kind == 'polar', lr2d=planar,
        L=8.0 if 'L' in c.kind else None, perp=c.perp, quad='quad' in c.kind,
        divide_mass=c.divide_mass, symmetric=c.symmetric)


def planar_N(c):
    """Supercells of 2D systems only extend along the plane."""

    N = gen.matrix(c.N)

    if c.kind.startswith('2d'):
        N[:, 2] = 0
        N[2] = [0, 0, 1]

        if N[0, 0] * N[1, 1] == N[0, 1] * N[1, 0]:
            N[:2, :2] = [[2, 1], [0, 1]]

        return N.tolist()

    return c.N


ph_domain = dict(seed=seeds, a=gen.lattices(), nat=sizes(1, 2, 4),
    nR=sizes(1, 5, 9), kind=ph_kind, perp=st.booleans(),
    divide_mass=st.booleans(), symmetric=st.booleans(),
    N=gen.supercells(max_cells=6), K=point)


def wrap(k):
    return [(x + np.pi) % (2 * np.pi) - np.pi for x in k]


@P.sub('ph', quick=140, thorough=2000, **ph_domain)
def ph(c):
    N = planar_N(c)
    g = rng(c.seed)
    ph = make_ph(c, g)
    M = gen.matrix(N)

    R0, data0, r0 = ph.R.copy(), ph.data.copy(), ph.r.copy()

    sc = ph.supercell(*gen.args(N))
    n = len(sc.cells)

    check_cells(sc.cells, N, 'ph')
    check_N(sc, N, 'ph')
    equal(sc.nat, n * c.nat, 'ph: nat')
    equal(sc.size, n * ph.size, 'ph: size')
    close(sc.a, M.dot(ph.a), 'ph: lattice vectors')
    equal(list(sc.atom_order), list(ph.atom_order) * n, 'ph: atoms')
    close(sc.M, np.concatenate([ph.M] * n), 'ph: masses')
    close(sc.r, np.array([np.dot(cell, ph.a) + r for cell in sc.cells
        for r in ph.r]), 'ph: positions')
    equal(bool(sc.divide_mass), c.divide_mass, 'ph: divide_mass')
    equal(bool(sc.lr), bool(ph.lr), 'ph: lr')

    if ph.Z is not None:
        close(sc.Z, np.concatenate([ph.Z] * n), 'ph: Born charges')
        close(sc.eps, ph.eps, 'ph: dielectric tensor')

    if ph.Q is not None:
        close(sc.Q, np.concatenate([ph.Q] * n), 'ph: quadrupoles')

    K = c.K

    if c.kind.startswith('2d'):
        K = [K[0], K[1], 0.0]

    D = sc.D(*wrap(K))
    ref = bloch(lambda *k: ph.D(*wrap(k)), K, N, sc.cells)

    close(D, ref, 'ph: supercell dynamical matrix',
        tol=1e-7 if ph.lr else 1e-9, N=N, K=K)

    if not ph.lr:
        ref = {}

        for R, data in zip(ph.R, ph.data):
            ref[tuple(map(int, R))] = data

        for S, data in zip(sc.R, sc.data):
            for i in range(n):
                for j in range(n):
                    R = np.dot(S, M) + np.array(sc.cells[j]) - sc.cells[i]

                    close(data[i * ph.size:(i + 1) * ph.size,
                        j * ph.size:(j + 1) * ph.size],
                        ref.get(tuple(map(int, R)),
                            np.zeros((ph.size, ph.size))),
                        'ph: force constants', tol=1e-12)

    equal(ph.R, R0, 'ph: original R')
    equal(ph.data, data0, 'ph: original data')
    equal(ph.r, r0, 'ph: original r')

    return gen.nontrivial_supercell(N)


@P.sub('ph_sparse', quick=130, thorough=1000, **ph_domain)
def ph_sparse(c):
    N = planar_N(c)
    ph = make_ph(c, rng(c.seed))

    sc = ph.supercell(*gen.args(N), sparse=True)

    check_cells(sc.cells, N, 'ph')
    close(sc.a, gen.matrix(N).dot(ph.a), 'ph: lattice vectors')

    close(sc.Ds.toarray(), bloch(lambda *k: ph.D(*wrap(k)), (0, 0, 0), N,
        sc.cells), 'ph: sparse dynamical matrix',
        tol=1e-7 if ph.lr else 1e-9, N=N)

    return gen.nontrivial_supercell(N)


@P.sub('ph_unit_cell', quick=100, thorough=2000, shift=ints(-1, 1, 3),
    **ph_domain)
def ph_unit_cell(c):
    N = planar_N(c)
    ph = make_ph(c, rng(c.seed))

    if c.seed % 16 == 5: # no (short-range) forces
        if c.seed % 32 == 5:
            ph.clear()
        else:
            ph.data[:] = 0.0

    sc = ph.supercell(*gen.args(N))
    uc = sc.unit_cell()

    close(uc.a, ph.a, 'ph: lattice vectors after round trip', N=N)
    close(uc.r, ph.r, 'ph: positions after round trip')
    close(uc.M, ph.M, 'ph: masses after round trip')
    equal(list(uc.atom_order), list(ph.atom_order), 'ph: atom order')
    equal((uc.nat, uc.size), (ph.nat, ph.size), 'ph: sizes')
    equal(bool(uc.divide_mass), c.divide_mass, 'ph: divide_mass')

    if ph.Z is not None:
        close(uc.Z, ph.Z, 'ph: Born charges')

    if ph.Q is not None:
        close(uc.Q, ph.Q, 'ph: quadrupoles')

    for R, data in zip(ph.R, ph.data):
        close(uc.C(*R), data, 'ph: force constants after round trip', tol=1e-12)

    K = wrap(c.K)

    if c.kind.startswith('2d'):
        K[2] = 0.0

    close(uc.D(*K), ph.D(*K), 'ph: dynamical matrix after round trip',
        tol=1e-7 if ph.lr else 1e-9)

    # models do not share state

    r0 = sc.r.copy()
    D0 = sc.D(*K)

    uc.shift_atoms(slice(0, 1), tuple(c.shift))

    equal(sc.r, r0, 'ph: changing the unit-cell model changes the supercell')
    close(sc.D(*K), D0, 'ph: changing the unit-cell model changes supercell')

    return gen.nontrivial_supercell(N)


@P.sub('elel', quick=960, seed=seeds, size=sizes(1, 3, 6),
    nR=sizes(1, 6, 20), N=gen.supercells(), K=point)
def elel(c):
    elel = gen.elel_model(rng(c.seed), c.size, c.nR)

    if c.seed % 16 == 5:
        elel.R = elel.R[:0]
        elel.data = elel.data[:0]

    sc = elel.supercell(*gen.args(c.N))

    check_cells(sc.cells, c.N, 'elel')
    check_N(sc, c.N, 'elel')
    equal(sc.size, len(sc.cells) * c.size, 'elel: size')
    close(sc.W(*c.K), bloch(elel.W, c.K, c.N, sc.cells),
        'elel: supercell interaction')

    return gen.nontrivial_supercell(c.N)


def bloch_g(elph, Q, K, N, cells):
    M = gen.matrix(N)
    qs = gen.folded(Q, M)
    ks = gen.folded(K, M)
    n = len(qs)

    total = 0

    for q in qs:
        for k in ks:
            G = elph.g(*wrap(q), *wrap(k))
            wq = phases(q, cells)
            wk = phases(k, cells)

            total = total + np.einsum('l,i,j,xab->lxiajb', wq.conj(), wq * wk,
                wk.conj(), G) / n ** 2

    return np.reshape(total, (n * elph.ph.size, n * elph.el.size,
        n * elph.el.size))


elph_domain = dict(ph_domain, N=gen.supercells(max_cells=4),
    size=st.integers(1, 2), real=st.booleans(), Q=point)


def make_elph(c, g, real=False):
    planar = c.kind.startswith('2d')
    ph = make_ph(c, g)
    el = gen.el_model(g, c.size, c.nR, True, real=real)

    return gen.elph_model(g, el, ph, real=real, divide_mass=c.divide_mass)


@P.sub('elph', quick=180, thorough=1000, shared=st.booleans(), **elph_domain)
def elph(c):
    N = planar_N(c)
    elph = make_elph(c, rng(c.seed), c.real)

    Q = list(c.Q)
    K = list(c.K)

    if c.kind.startswith('2d'):
        Q[2] = 0.0

    ref = bloch_g(elph, Q, K, N, elphmod.bravais.supercell(*gen.args(N))[3])

    data0 = elph.data.copy()

    sc = elph.supercell(*gen.args(N), shared_memory=c.shared)

    check_cells(sc.cells, N, 'elph')
    equal(sc.cells, sc.el.cells, 'elph: cells of el')
    equal(sc.cells, sc.ph.cells, 'elph: cells of ph')
    equal(bool(sc.divide_mass), c.divide_mass, 'elph: divide_mass')

    close(sc.g(*wrap(Q), *K), ref, 'elph: supercell coupling',
        tol=1e-7 if elph.ph.lr else 1e-9, N=N, Q=Q, K=K)

    close(sc.el.H(*K), bloch(elph.el.H, K, N, sc.cells), 'elph: el')
    close(sc.ph.D(*wrap(Q)), bloch(lambda *k: elph.ph.D(*wrap(k)), Q, N,
        sc.cells), 'elph: ph', tol=1e-7 if elph.ph.lr else 1e-9)

    equal(elph.data, data0, 'elph: original data')

    return gen.nontrivial_supercell(N)


@P.sub('elph_sparse', quick=140, thorough=1000, **elph_domain)
def elph_sparse(c):
    N = planar_N(c)
    elph = make_elph(c, rng(c.seed), real=True)

    sc = elph.supercell(*gen.args(N), sparse=True)

    ref = bloch_g(elph, (0, 0, 0), (0, 0, 0), N, sc.cells)

    if elph.ph.lr:
        ref = ref.real # imaginary part is neglected by definition

    gs = np.array([g.toarray() for g in sc.gs])

    close(gs, ref, 'elph: sparse coupling', tol=1e-7 if elph.ph.lr else 1e-9,
        N=N)

    close(sc.el.Hs.toarray(), bloch(elph.el.H, (0, 0, 0), N, sc.cells),
        'elph: sparse el')
    close(sc.ph.Ds.toarray(), bloch(lambda *k: elph.ph.D(*wrap(k)), (0, 0, 0),
        N, sc.cells), 'elph: sparse ph', tol=1e-7 if elph.ph.lr else 1e-9)

    return gen.nontrivial_supercell(N)
