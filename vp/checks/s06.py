"""S06: Long-range electrostatics is consistent."""

import itertools

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, check, close, equal, rng, seeds, st, ints)

P = Property('S06',
    'Random polar crystals (1-3 atoms, random Born charges obeying the charge '
    'sum rule, anisotropic dielectric tensors, optional quadrupoles, Ewald '
    'parameters), three- and two-dimensional, with and without range '
    'separation and out-of-plane terms. Non-trivial: more than one atom and '
    'a wave vector other than zero.',
    ['Range-separation lengths are not so small that the documented cutoff of '
        'reciprocal lattice vectors or a pole of the out-of-plane screening '
        'matters.'])

angle = st.one_of(st.sampled_from([0.0, np.pi, np.pi / 2, 2 * np.pi / 3, -1.0]),
    st.floats(-3.2, 3.2).map(lambda x: round(x, 4)))

point = st.tuples(angle, angle, angle)

kinds = st.sampled_from(['3d', '2d', '2dL', '2dLp'])

domain = dict(seed=seeds, nat=st.sampled_from([2, 3, 2, 1]), kind=kinds,
    quad=st.booleans(), divide_mass=st.booleans(),
    alph=st.sampled_from([None, 0.5, 1.3]))


def make(c, g, at):
    kind = c.kind
    L = None

    if 'L' in kind:
        L = g.uniform(4.0, 8.0)

    return gen.ph_model(g, at, c.nat, 3, lr=True, lr2d='2d' in kind, L=L,
        perp=kind == '2dLp', quad=c.quad, divide_mass=c.divide_mass,
        alph=c.alph, nq=(2, 3, 1) if '2d' in kind else (2, 1, 3))


def explicit(a, r, M, eps, Z, Q, alpha, q, lr2d, L, perp, G_max=28.0,
        G_2d=False):
    """Prefactors and vectors of all terms by explicit loops."""

    a = np.array(a)
    b = 2 * np.pi * np.linalg.inv(a).T

    e2 = 2.0
    scale = 4 * alpha * (2 * np.pi / np.linalg.norm(a[0])) ** 2

    if lr2d:
        pre = 2 * np.pi * e2 / np.linalg.norm(np.cross(a[0], a[1]))
        reff = (eps - np.eye(3)) * a[2, 2] / 2
    else:
        pre = 4 * np.pi * e2 / abs(np.linalg.det(a))

    w = np.linalg.eigvalsh(eps).min() if not lr2d else 1.0
    Kmax = np.sqrt(scale * G_max / w)

    n = [int(Kmax * np.linalg.norm(x) / (2 * np.pi)) + 2 for x in a]

    if lr2d or G_2d:
        n[2] = 0

    terms = []
    edge = False

    for m in itertools.product(*[range(-x, x + 1) for x in n]):
        G = np.dot(m, b)
        metric = G.dot(G) if lr2d else G.dot(eps).dot(G)

        if abs(metric / (scale * G_max) - 1) < 1e-9:
            edge = True

        if metric >= scale * G_max:
            continue

        K = G + np.dot(q, b) / (2 * np.pi)
        k2 = K.dot(K) if lr2d else K.dot(eps).dot(K)

        if k2 <= 1e-10:
            continue

        phase = np.exp(-1j * r.dot(K))
        M_ = np.sqrt(M)

        dip = 1j * np.einsum('e,neu->nu', K, Z)

        if Q is not None:
            dip = dip + 0.5 * np.einsum('x,nuxy,y->nu', K, Q, K)

            if lr2d and L is not None:
                dip = dip - 0.5 * k2 * Q[:, :, 2, 2]

        vec = (dip * (phase / M_)[:, None]).ravel()

        if not lr2d:
            f = pre * np.exp(-k2 / scale) / k2
        else:
            kr = K[:2].dot(reff[:2, :2]).dot(K[:2])
            k = np.sqrt(k2)

            if L is None:
                f = pre * np.exp(-k2 / scale) / (k + kr)
            else:
                damp = 1 - np.tanh(k * L / 2)
                f = pre * damp / k / (1 + damp / k * kr)

        terms.append((f, vec))

        if perp and lr2d and L is not None:
            dip = 1j * k * Z[:, 2]

            if Q is not None:
                dip = dip + k * np.einsum('nuy,y->nu', Q[:, :, 2, :2], K[:2])

            vec = (dip * (phase / M_)[:, None]).ravel()
            f = -pre * damp / k / (1 - damp * k * reff[2, 2])
            terms.append((f, vec))

    return terms, edge


def explicit_of(ph, q, perp=None, **kwargs):
    M = ph.M if ph.divide_mass else np.ones(ph.nat)

    return explicit(ph.a, ph.r, M, ph.eps, ph.Z, ph.Q, ph.alpha, q,
        ph.lr2d, ph.L, ph.perp if perp is None else perp, **kwargs)


def quadratic(terms, size):
    D = np.zeros((size, size), dtype=complex)

    for f, v in terms:
        D += f * np.outer(v.conj(), v)

    return D


def onsite(ph, **kwargs):
    """Constant that restores the acoustic sum rule (from bare charges)."""

    terms, edge = explicit(ph.a, ph.r, np.ones(ph.nat), ph.eps, ph.Z, ph.Q,
        ph.alpha, np.zeros(3), ph.lr2d, ph.L, ph.perp, **kwargs)
    D = quadratic(terms, ph.size)
    D0 = np.zeros_like(D)

    for i in range(ph.nat):
        for j in range(ph.nat):
            D0[3 * i:3 * i + 3, 3 * i:3 * i + 3] -= D[3 * i:3 * i + 3,
                3 * j:3 * j + 3]

    if ph.divide_mass:
        D0 /= np.sqrt(np.outer(np.repeat(ph.M, 3), np.repeat(ph.M, 3)))

    return D0


def scale_of(ph):
    """Values are of the order of 1, or 1e-3 if divided by masses."""

    return 1e-3 if ph.divide_mass else 1.0


@P.sub('terms', quick=470, q=point, at=gen.lattices(planar=True),
    at3=gen.lattices(), cut=st.sampled_from([None, None, 28.0, 14.0]),
    G_2d=st.booleans(), **domain)
def terms(c):
    """Dynamical matrix and coupling equal the explicit sums."""

    g = rng(c.seed)
    ph = make(c, g, c.at if '2d' in c.kind else c.at3)

    kwargs = {}

    if c.cut is not None:
        kwargs = dict(G_max=c.cut, G_2d=c.G_2d)
        ph.prepare_long_range(**kwargs)

    q = np.array(c.q)

    if ph.lr2d:
        q[2] = 0.0

    ref, edge = explicit_of(ph, q, **kwargs)

    if edge:
        return False

    s = scale_of(ph)

    D = ph.D_lr(*q)
    D0 = onsite(ph, **kwargs)

    close(ph.D0_lr / s, D0 / s, 'constant part', tol=1e-8)
    close(D / s, (D0 + quadratic(ref, ph.size)) / s, 'D_lr', tol=1e-8)

    part = (D - ph.D0_lr) / s
    close(part, part.conj().T, 'D_lr: Hermitian part')
    close(ph.D_lr(*-q) / s, D.conj() / s, 'D_lr: time reversal')

    elph = gen.elph_model(g, gen.el_model(g, 1, 2), ph,
        divide_mass=c.divide_mass)
    ref, edge = explicit_of(ph, q, perp=False, **kwargs)
    t = np.sqrt(s)
    gq = sum(f * v for f, v in ref) / t if len(ref) else np.zeros(ph.size)

    close(elph.g_lr(*q) / t, gq, 'g_lr', tol=1e-8)

    glr = elph.g_lr_orbitals(*q)
    close(glr / t, np.repeat(gq[:, None], elph.el.size, axis=1),
        'g_lr for all orbitals')

    # the same factors and vectors make up both

    factor, vector = ph.generate_long_range(*q, perp=False)
    close(np.einsum('g,gi->i', factor, vector) / t, gq, 'terms of coupling')

    factor, vector = ph.generate_long_range(*q)
    close(np.einsum('g,gi,gj->ij', factor, vector.conj(), vector) / s, part,
        'terms of dynamical matrix')

    # total: short-range plus long-range

    total = np.einsum('Rxy,R->xy', ph.data, np.exp(1j * ph.R.dot(q))) + D
    close(ph.D(*q), total, 'D = short range + long range')

    k = g.uniform(-3, 3, 3)
    sr = np.einsum('RxSab,R,S->xab', elph.data, np.exp(1j * elph.Rg.dot(q)),
        np.exp(1j * elph.Rk.dot(k)))

    for a in range(elph.el.size):
        sr[:, a, a] += gq * t

    close(elph.g(*q, *k), sr, 'g = short range + long range')

    ph.lr = False
    close(ph.D(*q), total - D, 'without long-range part')

    return c.nat > 1 and bool(np.any(q))


@P.sub('symmetry', quick=470, q=point, at=gen.lattices(planar=True),
    at3=gen.lattices(), G=ints(-1, 1, 3), **domain)
def symmetry(c):
    """Acoustic sum rule, periodicity, rigid shifts and rotations."""

    g = rng(c.seed)
    ph = make(c, g, c.at if '2d' in c.kind else c.at3)
    s = scale_of(ph)

    M = np.sqrt(np.repeat(ph.M, 3)) if ph.divide_mass else np.ones(ph.size)
    D = ph.D_lr() * np.outer(M, M)

    close(D.reshape((ph.size, ph.nat, 3)).sum(axis=1), np.zeros((ph.size, 3)),
        'acoustic sum rule')

    q = np.array(c.q)

    if ph.lr2d:
        q[2] = 0.0

    D = ph.D_lr(*q)

    def again(r=None, U=None):
        U = np.eye(3) if U is None else U
        Q = ph.Q

        if Q is not None:
            Q = np.einsum('nuxy,vu,wx,zy->nvwz', Q, U, U, U)

        return elphmod.ph.Model(amass=ph.M, at=ph.a.dot(U.T),
            tau=(ph.r if r is None else r).dot(U.T), atom_order=ph.atom_order,
            epsil=U.dot(ph.eps).dot(U.T),
            zeu=np.einsum('nxy,vx,wy->nvw', ph.Z, U, U), Q=Q, L=ph.L,
            perp=ph.perp, lr=True, lr2d=ph.lr2d, divide_mass=ph.divide_mass,
            alph=c.alph)

    # rigid shift of whole crystal

    new = again(r=ph.r + g.uniform(-2, 2, 3))
    close(new.D_lr(*q) / s, D / s, 'rigid shift', tol=1e-7)

    # rotation of whole crystal

    if ph.lr2d:
        phi = g.uniform(0, 6)
        U = np.eye(3)
        U[:2, :2] = [[np.cos(phi), -np.sin(phi)], [np.sin(phi), np.cos(phi)]]
    else:
        U = np.linalg.qr(g.standard_normal((3, 3)))[0]

    new = again(U=U)
    V = np.kron(np.eye(ph.nat), U)
    close(new.D_lr(*q) / s, V.dot(D).dot(V.T) / s, 'rotation', tol=1e-6)

    # reciprocal lattice vector (up to cutoff)

    K = np.array(c.G) * 2 * np.pi

    if ph.lr2d:
        K[2] = 0.0

    if ph.alpha >= 0.5:
        close(ph.D_lr(*q + K) / s, D / s, 'periodicity',
            tol=5e-2 if ph.alpha < 1 else 2e-3) # because of the cutoff

    return c.nat > 1 and bool(np.any(q))


@P.sub('limit', quick=720, at=gen.lattices(planar=True), at3=gen.lattices(),
    **domain)
def limit(c):
    """Limit of vanishing wave vector depends on direction as expected."""

    g = rng(c.seed)
    ph = make(c, g, c.at if '2d' in c.kind else c.at3)

    q = g.uniform(-1, 1, 3)

    if ph.lr2d:
        q[2] = 0.0

    q /= np.linalg.norm(q)

    b = 2 * np.pi * np.linalg.inv(ph.a).T
    K = q.dot(b) / (2 * np.pi) # per unit of the crystal coordinate

    M = np.sqrt(np.repeat(ph.M, 3)) if ph.divide_mass else np.ones(ph.size)
    MM = np.outer(M, M)

    def d(t):
        return (ph.D_lr(*t * q) - ph.D_lr()) * MM

    if ph.lr2d:
        area = np.linalg.norm(np.cross(ph.a[0], ph.a[1]))
        k = np.linalg.norm(K)
        KZ = np.einsum('e,neu->nu', K, ph.Z).ravel()
        expected = 4 * np.pi / area * np.outer(KZ, KZ) / k

        if ph.L is not None and ph.perp:
            Zz = ph.Z[:, 2, :].ravel()
            expected -= 4 * np.pi / area * k * np.outer(Zz, Zz)

        # odd in |q| part, independent of the analytic terms:
        t = 2e-3
        def slope(t):
            return (d(t) + d(-t)) / (2 * t)
        got = (8 * slope(t / 4) - 6 * slope(t / 2) + slope(t)) / 3
        close(got.real, expected, 'slope in two dimensions', tol=2e-3)
    else:
        volume = abs(np.linalg.det(ph.a))
        KZ = np.einsum('e,neu->nu', K, ph.Z).ravel()
        expected = 8 * np.pi / volume * np.outer(KZ, KZ) \
            / K.dot(ph.eps).dot(K)
        t = 1e-2
        even = lambda t: (d(t) + d(-t)) / 2
        got = (4 * even(t / 2) - even(t)) / 3
        close(got.real, expected, 'nonanalytic limit', tol=1e-5)

    return c.nat > 1


@P.sub('update', quick=270, at=gen.lattices(planar=True), at3=gen.lattices(),
    nel=st.integers(1, 2), history=st.lists(st.sampled_from(['Z', 'Q', 'noQ',
    'L', 'noL', 'eps', 'off', 'on', 'perp', 'alpha']), min_size=1, max_size=4),
    elph=st.booleans(), **domain)
def update(c):
    """Changed parameters of the long-range part leave the mesh data alone."""

    g = rng(c.seed)
    ph = make(c, g, c.at if '2d' in c.kind else c.at3)
    lr2d = ph.lr2d

    ph.r = (ph.r.dot(np.linalg.inv(ph.a)) % 1).dot(ph.a)
    ph.prepare_long_range()

    mesh = [np.array([2 * np.pi * m / n for m, n in zip(x, ph.nq)])
        for x in np.ndindex(*ph.nq)]

    # Hermitian on-site part as in real crystals

    ph.D0_lr = (ph.D0_lr + ph.D0_lr.conj().T) / 2

    ph.sample_orig()

    D0 = [ph.D(*q) for q in mesh]

    equal(len(ph.q0), len(mesh), 'number of q points')

    for q in mesh:
        check(min(np.abs(q - x).max() for x in ph.q0) < 1e-9, 'q mesh')

    elph = None

    if c.elph:
        el = gen.el_model(g, c.nel, 3)
        el.nk = (2, 2, 1) if lr2d else (2, 1, 2)
        el.r = np.zeros((c.nel, 3))
        el.cells = [(0, 0, 0)]
        elph = gen.elph_model(g, el, ph, divide_mass=c.divide_mass)
        elphmod.elph.q2r(elph, ph.nq, el.nk, gen.cplx(g, (np.prod(ph.nq),
            ph.size, np.prod(el.nk), c.nel, c.nel)), g.uniform(0, 1,
            (c.nel, 3)).dot(ph.a), c.divide_mass)
        elph.sample_orig()
        ks = [np.array([2 * np.pi * m / n for m, n in zip(x, el.nk)])
            for x in np.ndindex(*el.nk)]
        g0 = [elph.g(*q, *k) for q in mesh for k in ks]

    for step in c.history:
        if step == 'Z':
            Z = g.uniform(-2.0, 2.0, (ph.nat, 3, 3))
            ph.Z = Z - Z.mean(axis=0)
        elif step == 'Q':
            Q = g.uniform(-2.0, 2.0, (ph.nat, 3, 3, 3))
            ph.Q = (Q + Q.swapaxes(2, 3)) / 2
        elif step == 'noQ':
            ph.Q = None
        elif step == 'L':
            ph.L = g.uniform(4.0, 8.0)
        elif step == 'noL':
            ph.L = None
        elif step == 'eps':
            ph.eps = ph.eps + np.diag([0.3, 0.2, 0.0])
        elif step == 'off':
            ph.lr = False
        elif step == 'on':
            ph.lr = True
        elif step == 'perp':
            ph.perp = not ph.perp
        elif step == 'alpha':
            ph.alpha *= 1.1

        ph.update_short_range()

        restored_hermitian(ph, mesh, D0, 'after %s' % step)

        if elph is not None:
            elph.update_short_range()
            i = 0
            for q in mesh:
                for k in ks:
                    close(elph.g(*q, *k), g0[i], 'coupling after %s' % step, q=q, k=k,
                        tol=1e-6)
                    i += 1

            equal(elph.ph is ph, True, 'same phonon model')

    return c.nat > 1


def restored_hermitian(ph, mesh, D0, message):
    """Short-range data are made real and Hermitian, so compare that part."""

    s = scale_of(ph)

    for q, D in zip(mesh, D0):
        new = ph.D(*q)

        # The constant part need not be Hermitian for arbitrary quadrupoles
        # and low-symmetry crystals.

        if ph.lr:
            anti = ph.D0_lr - ph.D0_lr.conj().T
            anti = np.abs(anti).max() / s
        else:
            anti = 0.0

        check(np.abs(new - D).max() / s < 1e-6 * max(1.0, np.abs(D).max() / s)
            + 2 * anti, message, q=q, got=new, expected=D)


@P.sub('cost', quick=720, at=gen.lattices(), seed=seeds, nat=st.integers(1, 3),
    divide_mass=st.booleans(), nq=ints(1, 4, 3))
def cost(c):
    g = rng(c.seed)
    ph = gen.ph_model(g, c.at, c.nat, 4, divide_mass=c.divide_mass, nq=c.nq)

    total = 0.0

    for n, R in enumerate(ph.R):
        for i in range(ph.size):
            for j in range(ph.size):
                if np.any(R) or i // 3 != j // 3:
                    w = np.sqrt(ph.M[i // 3] * ph.M[j // 3]) \
                        if c.divide_mass else 1.0
                    total += abs(ph.data[n, i, j]) * w

    data = ph.data.copy()

    close(ph.sum_force_constants(), total / (2 * np.prod(c.nq)),
        'sum of force constants', tol=1e-9)
    equal(ph.data, data, 'data modified')

    return len(ph.R) > 1
