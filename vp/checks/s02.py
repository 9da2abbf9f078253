"""S02: Model evaluation equals the lattice Fourier sum."""

import copy

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)

P = Property('S02',
    'Random lattice data (1-3 orbitals/atoms, random unique lattice vectors), '
    'random wave vectors, random histories of evaluations and modifications. '
    'Non-trivial: more than one lattice vector, a wave vector that is not '
    'zero, and (histories) at least two evaluations with a modification, copy '
    'or different q point in between.',
    ['Lattice vectors of a model are unique (as after standardize).'])

angle = st.one_of(st.sampled_from([0.0, np.pi, np.pi / 2, 2 * np.pi / 3, -1.0]),
    st.floats(-7.0, 7.0).map(lambda x: round(x, 4)))

point = st.tuples(angle, angle, angle)


def fourier(R, data, k):
    total = np.zeros(data.shape[1:], dtype=complex)

    for r, d in zip(R, data):
        total = total + d * np.exp(1j * sum(float(a) * b for a, b in zip(r, k)))

    return total


def periodic(f, k, G, f0, name, tol=1e-8):
    close(f(*[a + 2 * np.pi * b for a, b in zip(k, G)]), f0,
        '%s: periodicity' % name, tol=tol)


many = st.sampled_from([1, 2, 3, 4, 5, 6, 8, 40, 120])


def later(m, f, k, name, D_lr=None):
    """Nearby points and changes of the data."""

    for x in (1e-6, -1e-9, 3e-5):
        near = [a * (1 + x) for a in k]
        ref = fourier(m.R, m.data, near)

        if D_lr is not None:
            ref = ref + D_lr(*near)

        close(f(*near), ref, '%s: nearby point' % name, tol=1e-10)

    old = m.data.copy()

    for change in range(3):
        if change == 0:
            m.data[...] *= 0.5
        elif change == 1:
            m.data = m.data[::-1].copy()
        else:
            m.R = m.R[::-1] * 2

        ref = fourier(m.R, m.data, k)

        if D_lr is not None:
            ref = ref + D_lr(*k)

        close(f(*k), ref, '%s: changed data' % name)


@P.sub('el', quick=1800, seed=seeds, size=sizes(1, 4, 9),
    nR=many, hermitian=st.booleans(), k=point, G=ints(-3, 3, 3))
def el(c):
    g = rng(c.seed)
    el = gen.el_model(g, c.size, c.nR, c.hermitian)
    k = c.k

    R0 = el.R.copy()
    data0 = el.data.copy()

    H = el.H(*k)

    close(H, fourier(R0, data0, k), 'H')
    close(el.H(k1=k[0], k3=k[2]), fourier(R0, data0, (k[0], 0, k[2])),
        'H: default arguments')
    close(el.H(), data0.sum(axis=0), 'H at Gamma')
    periodic(el.H, k, c.G, H, 'H')

    v = el.v(*k)
    equal(v.shape, (3, c.size, c.size), 'v: shape')

    for x in range(3):
        close(v[x], fourier(R0, 1j * R0[:, x, None, None] * data0, k), 'v')

    periodic(el.v, k, c.G, v, 'v')

    # Hellmann-Feynman: difference quotient of the Hamiltonian itself

    h = 1e-4
    for x in range(3):
        d = np.zeros(3)
        d[x] = h
        num = (8 * (el.H(*np.add(k, d)) - el.H(*np.subtract(k, d)))
            - (el.H(*np.add(k, 2 * d)) - el.H(*np.subtract(k, 2 * d)))) \
            / (12 * h)
        close(v[x], num, 'v: derivative of H', tol=1e-7)

    if c.hermitian:
        close(H, H.conj().T, 'H: Hermitian')
        close(v, v.conj().swapaxes(1, 2), 'v: Hermitian')

    for r in list(R0) + [np.array([7, 0, 0]), g.integers(-2, 3, 3)]:
        found = [d for s, d in zip(R0, data0) if np.all(s == r)]
        close(el.t(*r), found[0] if found else np.zeros_like(data0[0]), 't')

    equal(el.R, R0, 'el: R changed')
    equal(el.data, data0, 'el: data changed')

    close(el.H(*k), H, 'H: second evaluation')

    later(el, el.H, k, 'H')

    return len(R0) > 1 and any(k)


@P.sub('ph', quick=710, seed=seeds, nat=sizes(1, 3, 6),
    nR=many, kind=st.sampled_from(['short', 'lr', 'quad', '2d',
    '2dL']), a=gen.lattices(), symmetric=st.booleans(),
    divide_mass=st.booleans(), k=point, G=ints(-2, 2, 3))
def ph(c):
    g = rng(c.seed)
    lr = c.kind in ('lr', 'quad')
    lr2d = c.kind.startswith('2d')

    a = np.array(c.a)

    if lr2d:
        a[:2, 2] = 0.0
        a[2] = [0.0, 0.0, 15.0]

    ph = gen.ph_model(g, a, c.nat, c.nR, lr=lr or lr2d, lr2d=lr2d,
        L=5.0 if c.kind == '2dL' else None, quad=c.kind == 'quad',
        symmetric=c.symmetric, divide_mass=c.divide_mass)

    k = list(c.k)
    G = list(c.G)

    if lr2d:
        k[2] = 0.0
        G[2] = 0

    if lr or lr2d: # the reciprocal-space sum covers the first zone
        k = [(x + np.pi) % (2 * np.pi) - np.pi for x in k]
        G = [0, 0, 0]

    R0 = ph.R.copy()
    data0 = ph.data.copy()

    D = ph.D(*k)

    ref = fourier(R0, data0, k)

    if lr or lr2d:
        ref = ref + ph.D_lr(*k)

    close(D, ref, 'D')
    periodic(ph.D, k, G, D, 'D')

    if c.symmetric and c.kind == 'short':
        close(D, D.conj().T, 'D: Hermitian')

    close(ph.D(*[-x for x in k]), D.conj(), 'D(-q) = D(q)*')

    for r in list(R0) + [np.array([7, 0, 0]), g.integers(-2, 3, 3)]:
        found = [d for s, d in zip(R0, data0) if np.all(s == r)]
        close(ph.C(*r), found[0] if found else np.zeros_like(data0[0]), 'C')

    equal(ph.R, R0, 'ph: R changed')
    equal(ph.data, data0, 'ph: data changed')

    close(ph.D(*k), D, 'D: second evaluation')

    later(ph, ph.D, k, 'D', ph.D_lr if ph.lr else None)

    return len(R0) > 1 and any(k)


@P.sub('elel', quick=960, seed=seeds, size=sizes(1, 4, 9),
    nR=many, k=point, G=ints(-3, 3, 3))
def elel(c):
    g = rng(c.seed)
    m = gen.elel_model(g, c.size, c.nR)

    W = m.W(*c.k)

    close(W, fourier(m.R, m.data, c.k), 'W')
    close(W, W.conj().T, 'W: Hermitian')
    periodic(m.W, c.k, c.G, W, 'W')
    close(m.W(), m.data.sum(axis=0), 'W: default arguments')

    for r in list(m.R) + [np.array([7, 0, 0]), g.integers(-2, 3, 3)]:
        found = [d for s, d in zip(m.R, m.data) if np.all(s == r)]
        close(m.WR(*r), found[0] if found else np.zeros_like(m.data[0]), 'WR')

    later(m, m.W, c.k, 'W')

    return len(m.R) > 1 and any(c.k)


def coupling(elph, q, k):
    """Explicit double Fourier sum of the present data."""

    total = np.zeros((elph.ph.size, elph.el.size, elph.el.size), dtype=complex)

    for i, r in enumerate(np.array(elph.Rg)):
        for j, s in enumerate(np.array(elph.Rk)):
            total += np.array(elph.data[i, :, j]) * np.exp(1j * (np.dot(r, q)
                + np.dot(s, k)))

    if elph.ph.lr:
        factor, vector = elph.ph.generate_long_range(*q, perp=False)
        g_lr = sum((f * v for f, v in zip(factor, vector)),
            np.zeros(elph.ph.size, dtype=complex))

        for a in range(elph.el.size):
            total[:, a, a] += g_lr

    return total


qpool = [(0.0, 0.0, 0.0), (np.pi, 0.0, 0.0), (0.0, np.pi / 2, 0.0),
    (1.0, -2.0, 0.5), (0.1, 0.2, 0.3), (2.5, 2.0, 1.0)]


@st.composite
def histories(draw):
    ops = []

    for _ in range(draw(st.integers(2, 7))):
        op = draw(st.sampled_from(['g', 'g', 'g', 'g', 'bands', 'asr',
            'standardize', 'eps', 'symmetrize', 'copy', 'q2r', 'sample',
            'gR', 'supercell', 'original', 'near']))

        if op in ('g', 'bands', 'copy', 'near'):
            ops.append([op, draw(st.integers(0, len(qpool) - 1)),
                draw(st.integers(0, len(qpool) - 1))])
        else:
            ops.append([op, draw(st.integers(0, 2 ** 16))])

    return ops


def small_elph(c, g):
    at = np.array([[5.0, 0, 0], [-1.0, 5.5, 0.0], [0.3, 0.0, 6.0]])
    lr = c.kind != 'short'
    ph = gen.ph_model(g, at, c.nat, 3, lr=lr, quad=c.kind == 'quad',
        divide_mass=c.divide_mass, nq=(2, 2, 1))
    el = gen.el_model(g, c.size, 3)
    el.nk = (2, 2, 1)

    elph = gen.elph_model(g, el, ph, c.nRg, c.nRk, divide_mass=c.divide_mass,
        box=1)

    return elph


elph_domain = dict(seed=seeds, size=sizes(1, 2, 4), nat=sizes(1, 2, 4),
    nRg=sizes(1, 4, 9), nRk=sizes(1, 4, 9),
    kind=st.sampled_from(['short', 'short', 'lr', 'quad']),
    divide_mass=st.booleans())


@P.sub('elph', quick=500, ops=histories(), **elph_domain)
def elph(c):
    g = rng(c.seed)
    elph = small_elph(c, g)

    models = [elph]
    evaluations = 0
    changes = 0

    def test(m, q, k, what):
        close(m.g(*q, *k), coupling(m, q, k), 'g after %s' % what, ops=c.ops)

    what = 'start'

    for op in c.ops:
        m = models[-1]

        if op[0] == 'g':
            test(m, qpool[op[1]], qpool[op[2]], what)
            evaluations += 1

        elif op[0] == 'near':
            x = 1.0 + 10.0 ** (-op[1] - 4) * (-1) ** op[2]
            q, k = qpool[3 + op[1] % 3], qpool[op[2]]
            near = [a * x for a in q]
            test(m, q, k, what)
            close(m.g(*near, *k), coupling(m, near, k), 'g at nearby point',
                tol=1e-10)
            evaluations += 2

        elif op[0] == 'original':
            test(models[0], qpool[op[1] % 6], qpool[0], what)
            evaluations += 1

        elif op[0] == 'bands':
            q, k = qpool[op[1]], qpool[op[2]]
            kq = [a + b for a, b in zip(q, k)]
            G = coupling(m, q, k)

            Uk = np.linalg.eigh(m.el.H(*k))[1]
            Ukq = np.linalg.eigh(m.el.H(*kq))[1]
            D = m.ph.D(*q)
            uq = np.linalg.eigh(D)[1]
            w = np.linalg.eigvalsh(D)

            ref = np.einsum('am,xab,bn->xmn', Ukq.conj(), G, Uk)
            close(abs(m.g(*q, *k, elbnd=True)), abs(ref), 'g: elbnd', 1e-6)

            if len(w) == 1 or np.diff(w).min() > 1e-3 * abs(w).max():
                ref = np.einsum('xab,xu->uab', G, uq)
                close(abs(m.g(*q, *k, phbnd=True)), abs(ref), 'g: phbnd', 1e-6)

                ref = np.einsum('am,xab,bn,xu->umn', Ukq.conj(), G, Uk, uq)
                close(abs(m.g(*q, *k, elbnd=True, phbnd=True)), abs(ref),
                    'g: bands', 1e-6)

            evaluations += 1

        elif op[0] == 'asr':
            m.asr(report=False)

        elif op[0] == 'standardize':
            m.standardize()

        elif op[0] == 'eps':
            m.standardize(eps=0.3)

        elif op[0] == 'symmetrize':
            m.symmetrize()

            q, k = qpool[4], qpool[3]
            kq = [a + b for a, b in zip(q, k)]
            q_ = [-a for a in q]

            if m.ph.lr:
                continue

            close(m.g(*q, *k), m.g(*q_, *kq).conj().swapaxes(1, 2),
                'g: adjoint', ops=c.ops)

        elif op[0] == 'copy': # a copy evaluated elsewhere
            other = copy.copy(m)
            other.g(*qpool[op[1]], *qpool[op[2]])
            other.g(*qpool[op[2]], *qpool[op[1]])

        elif op[0] == 'q2r':
            if getattr(m, 'dk', None) is None:
                continue

            shape = 4, m.ph.size, 2, 2, 1, m.el.size, m.el.size
            elphmod.elph.q2r(m, (2, 2, 1), (2, 2, 1), gen.cplx(rng(op[1]),
                shape), divide_mass=m.divide_mass)

        elif op[0] == 'sample':
            q = [(0.0, 0.0, 0.0), (np.pi, 0.0, 0.0)]
            G = m.sample(q, nk=(2, 1, 2))

            for i in range(2):
                for a in range(2):
                    for b in range(2):
                        close(G[i, :, a, 0, b], coupling(m, q[i],
                            (a * np.pi, 0, b * np.pi)), 'sample', ops=c.ops)

        elif op[0] == 'gR':
            gg = rng(op[1])
            i = gg.integers(len(m.Rg))
            j = gg.integers(len(m.Rk))

            close(m.gR(*m.Rg[i], *m.Rk[j]), m.data[i, :, j], 'gR')
            close(m.gR(*m.Rg[i], 9, 0, 0), 0 * m.data[0, :, 0], 'gR')
            close(m.gR(0, 9, 0, *m.Rk[j]), 0 * m.data[0, :, 0], 'gR')

        elif op[0] == 'supercell' and len(models) == 1 and not m.ph.lr:
            models.append(m.supercell(2, 1, 1))

        if op[0] not in ('g', 'bands', 'original', 'gR', 'near'):
            changes += 1

        what = op[0]

    test(models[-1], qpool[op[1] % 6], qpool[3], what)

    return evaluations > 1 and (changes or c.nRg > 1)


@P.sub('elph_clear', quick=360, q=st.integers(0, 5), **elph_domain)
def elph_clear(c):
    """Cleared models vanish and can be filled again."""

    c.kind = 'short'
    g = rng(c.seed)
    elph = small_elph(c, g)

    q = qpool[c.q]

    elph.g(*q, *qpool[3])
    elph.clear()

    n = elph.ph.size, elph.el.size

    close(elph.el.H(*q), np.zeros((n[1], n[1])), 'clear: H')
    close(elph.ph.D(*q), np.zeros((n[0], n[0])), 'clear: D')
    close(elph.g(*q, *qpool[3]), np.zeros((n[0], n[1], n[1])), 'clear: g')

    return bool(c.q)


@P.sub('sample', quick=460, nk=st.sampled_from([[1], [2], [3], [2, 1], [2, 3],
    [2, 2], [1, 2, 2], [3, 1, 2], [2, 2, 2], 2, 1]), nq=st.integers(1, 3),
    dim=st.sampled_from([1, 2, 3]), U=st.sampled_from([None, 'full', 'subset']),
    u=st.sampled_from([None, 'full', 'subset']), squared=st.booleans(),
    shared=st.booleans(), broadcast=st.booleans(), infer=st.booleans(),
    **elph_domain)
def sample(c):
    g = rng(c.seed)
    m = small_elph(c, g)

    # q points on the k mesh (so that U at k + q is defined)

    if hasattr(c.nk, '__len__'):
        nk = tuple(c.nk)
        dim = len(nk)
    else:
        dim = c.dim
        nk = (c.nk,) * dim

    mesh = np.array([1] * 3)
    mesh[:dim] = nk

    n = g.integers(-4, 5, (c.nq, dim))
    q = [tuple(2 * np.pi * n[i] / nk) for i in range(c.nq)]

    kwargs = dict()

    U = u = None

    if c.U:
        U = np.linalg.eigh(gen.cplx(g, (*nk, m.el.size, m.el.size)))[1]
        if c.U == 'subset':
            U = U[..., :1]
        kwargs['U'] = U.copy()

    if c.u:
        u = np.linalg.eigh(gen.cplx(g, (c.nq, m.ph.size, m.ph.size)))[1]
        if c.u == 'subset':
            u = u[..., 1:]
        kwargs['u'] = u.copy()

    if not (c.infer and c.U):
        kwargs['nk'] = c.nk

    G = m.sample(q, squared=c.squared, shared_memory=c.shared,
        broadcast=c.broadcast, **kwargs)

    nel = U.shape[-1] if c.U else m.el.size
    nph = u.shape[-1] if c.u else m.ph.size

    equal(G.shape, (c.nq, nph, *nk, nel, nel), 'sample: shape')

    ref = np.empty(G.shape, dtype=complex)

    for i in range(c.nq):
        Q = np.zeros(3)
        Q[:dim] = q[i]

        for K in np.ndindex(*nk):
            k = np.zeros(3)
            k[:dim] = 2 * np.pi * np.array(K) / nk
            KQ = tuple((np.array(K) + n[i]) % nk)
            x = coupling(m, Q, k)

            if c.U:
                x = np.array([U[KQ].conj().T.dot(y).dot(U[K]) for y in x])
            if c.u:
                x = sum(x[j] * u[i][j][:, None, None] if False else
                    np.multiply.outer(u[i][j], x[j]) for j in range(len(x)))

            ref[(i, slice(None), *K)] = x

    if c.squared:
        check(not np.iscomplexobj(G), 'sample: squared not real')
        ref = abs(ref) ** 2

    close(G, ref, 'sample')

    for key in 'U', 'u':
        if key in kwargs:
            equal(kwargs[key], dict(U=U, u=u)[key], 'sample: %s changed' % key)

    return len(np.unique(n, axis=0)) > 1 or np.prod(nk) > 1


@P.sub('transform', quick=960, seed=seeds, nk=sizes(1, 4, 7),
    nq=sizes(1, 3, 8), nel=sizes(1, 3, 6), nph=sizes(1, 3, 9),
    U=st.booleans(), u=st.booleans(), squared=st.booleans(),
    shared=st.booleans())
def transform(c):
    g = rng(c.seed)

    G = gen.cplx(g, (c.nq, c.nph, c.nk, c.nk, c.nel, c.nel))
    U = np.linalg.eigh(gen.cplx(g, (c.nk, c.nk, c.nel, c.nel)))[1]
    u = np.linalg.eigh(gen.cplx(g, (c.nq, c.nph, c.nph)))[1]

    n = g.integers(-c.nk, 2 * c.nk + 1, (c.nq, 2))
    q = 2 * np.pi * n / c.nk

    G0, U0, u0, q0 = G.copy(), U.copy(), u.copy(), q.copy()

    kwargs = {}

    if c.U:
        kwargs['U'] = U
    if c.u:
        kwargs['u'] = u

    T = elphmod.elph.transform(G, q, c.nk, squared=c.squared,
        shared_memory=c.shared, **kwargs)

    ref = np.empty(G.shape, dtype=complex)

    for i in range(c.nq):
        for k in np.ndindex(c.nk, c.nk):
            x = G0[i, :, k[0], k[1]]

            if c.U:
                kq = tuple((np.array(k) + n[i]) % c.nk)
                x = np.array([U0[kq].conj().T.dot(y).dot(U0[k]) for y in x])
            if c.u:
                x = np.tensordot(u0[i].T, x, 1)

            ref[i, :, k[0], k[1]] = x

    if c.squared:
        check(not np.iscomplexobj(T), 'transform: squared not real')
        ref = abs(ref) ** 2

    close(T, ref, 'transform')

    equal(G, G0, 'transform: input coupling changed')
    equal(U, U0, 'transform: U changed')
    equal(u, u0, 'transform: u changed')
    equal(q, q0, 'transform: q changed')

    return c.nk > 1 and c.nel > 1


@P.sub('sample_matrix', quick=720, seed=seeds, shape=st.sampled_from([[1], [3],
    [2, 3], [2, 1, 2], [5]]), dim=st.integers(1, 3), model=st.sampled_from([
    'H', 'v', 'W', 'f']))
def sample_matrix(c):
    """dispersion.sample on arbitrary arrays of k points."""

    g = rng(c.seed)
    el = gen.el_model(g, 2, 4)

    def f(k1=0, k2=0, k3=0, scale=1.0):
        return np.array([k1, 2 * k2, 3 * k3]) * scale

    kwargs = {}

    if c.model == 'f':
        function = f
        kwargs['scale'] = 2.5
    else:
        function = dict(H=el.H, v=el.v, W=gen.elel_model(g).W)[c.model]

    k = g.uniform(-4, 4, (*c.shape, c.dim))
    k0 = k.copy()

    if c.model == 'f':
        result = elphmod.dispersion.sample(function, k, scale=2.5)
        ref = np.array([function(*x, **kwargs) for x in k.reshape((-1,
            c.dim))])
    else:
        result = elphmod.dispersion.sample(function, k)
        ref = np.array([function(*x) for x in k.reshape((-1, c.dim))])

    close(result, ref.reshape((*c.shape, *ref.shape[1:])), 'sample')
    equal(k, k0, 'sample: k changed')

    return np.prod(c.shape) > 1


@P.sub('sample_orig', quick=360, **elph_domain)
def sample_orig(c):
    g = rng(c.seed)
    m = small_elph(c, g)
    m.sample_orig(shared_memory=bool(c.seed % 2))

    q0 = m.ph.q0
    equal(np.shape(q0), (4, 3), 'sample_orig: q0')

    i = 0
    for a in range(2):
        for b in range(2):
            q = np.pi * a, np.pi * b, 0.0
            close(q0[i], q, 'sample_orig: q0')

            for k in np.ndindex(2, 2, 1):
                close(m.g0[(i, slice(None), *k)], coupling(m, q,
                    np.pi * np.array(k)), 'sample_orig: g0')

            i += 1

    return True
