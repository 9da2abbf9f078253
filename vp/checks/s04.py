"""S04: Gauge and basis changes of models leave observables unchanged."""

import copy

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints)

P = Property('S04',
    'Random models (possibly with repeated and unsorted lattice vectors) and '
    'random sequences of operations. Non-trivial: at least two operations of '
    'which one is not a mere evaluation, and more than one lattice vector.',
    ['Data of models that share arrays because they have been copied with '
    'copy.copy are replaced, not overwritten (el, ph, elel).'])

shift = ints(-2, 2, 3)


@st.composite
def operations(draw, n, kinds):
    ops = []

    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(kinds))

        if op == 'order':
            ops.append([op, draw(st.permutations(list(range(n))))])
        elif op == 'shift':
            a = draw(st.integers(0, n))
            b = draw(st.integers(a, n))
            ops.append([op, a, b, draw(st.sampled_from([1, 1, 2])),
                draw(shift)])
        elif op == 'standardize':
            ops.append([op, draw(st.sampled_from([0.0, 0.0, 0.05, 0.3, 0.7])),
                draw(st.booleans())])
        else:
            ops.append([op])

    return [n, ops]


class Reference:
    """List of lattice vectors and matrices."""

    def __init__(self, R, data, block=1):
        self.items = [(tuple(int(x) for x in r), np.array(d, dtype=complex))
            for r, d in zip(R, data)]
        self.block = block
        self.size = data.shape[-1]

    def index(self, atoms):
        return [self.block * a + x for a in atoms for x in range(self.block)]

    def order(self, order):
        i = self.index(order)
        self.items = [(R, d[np.ix_(i, i)]) for R, d in self.items]

    def shift(self, atoms, S):
        inside = set(self.index(atoms))
        total = {}

        for R, d in self.items:
            for a in range(self.size):
                for b in range(self.size):
                    s = (b in inside) - (a in inside)
                    T = tuple(int(x) for x in np.array(R) - s * np.array(S))

                    if T not in total:
                        total[T] = np.zeros_like(d)

                    total[T][a, b] += d[a, b]

        self.items = sorted(total.items(), key=lambda x: x[0])

    def standardize(self, eps, symmetrize):
        if not self.items:
            return

        limit = eps * max(abs(d).max() for R, d in self.items)
        total = {}

        for R, d in self.items:
            d = np.where(abs(d) < limit, 0.0, d)

            for T, e in ([(R, d / 2), (tuple(-x for x in R), d.conj().T / 2)]
                    if symmetrize else [(R, d)]):
                total[T] = total.get(T, 0) + e

        self.items = sorted(((R, d) for R, d in total.items()),
            key=lambda x: x[0])

    def clear(self):
        self.items = []

    def __call__(self, k):
        total = np.zeros((self.size, self.size), dtype=complex)

        for R, d in self.items:
            total += d * np.exp(1j * np.dot(R, k))

        return total


def check_standard(m, name):
    """Sorted and unique lattice vectors, no vanishing matrices."""

    R = list(map(tuple, np.array(m.R)))
    equal(np.shape(m.R), (len(R), 3), name + ': shape of R')
    equal(R, sorted(set(R)), name + ': lattice vectors not sorted or unique')
    equal(np.shape(m.data)[0], len(R), name + ': shape of data')


def repeat(g, m, n):
    """Split the data over repeated lattice vectors."""

    if n:
        i = g.integers(0, len(m.R), n)
        m.R = np.concatenate((m.R, m.R[i]))
        extra = m.data[i] * 0.3
        m.data = np.concatenate((m.data, extra))


probes = [(0.0, 0.0, 0.0), (0.3, -1.0, 2.0), (np.pi, 0.7, -0.4)]

el_ops = st.integers(1, 4).flatmap(lambda n: operations(n, ['order', 'shift',
    'shift', 'standardize', 'standardize', 'symmetrize', 'clear', 'copy']))


@P.sub('el', quick=6000, seed=seeds, ops=el_ops, nR=sizes(1, 5, 16),
    hermitian=st.booleans(), rep=st.integers(0, 3))
def el(c):
    n, ops = c.ops
    g = rng(c.seed)
    m = gen.el_model(g, n, c.nR, c.hermitian)
    repeat(g, m, c.rep)

    ref = Reference(m.R, m.data)
    others = []
    single = False

    for op in ops:
        if op[0] == 'order':
            m.order_orbitals(*op[1])
            ref.order(op[1])

        elif op[0] == 'shift':
            _, a, b, step, S = op
            m.shift_orbitals(slice(a, b, step), tuple(S))
            ref.shift(range(a, b, step), S)
            check_standard(m, 'shift_orbitals')

        elif op[0] == 'standardize':
            m.standardize(eps=op[1], symmetrize=op[2])
            ref.standardize(op[1], op[2])
            check_standard(m, 'standardize')

            if op[1]:
                check_zeros(m, 'standardize')

        elif op[0] == 'symmetrize':
            m.symmetrize()
            ref.standardize(0.0, True)
            check_standard(m, 'symmetrize')

            for k in probes:
                close(m.H(*k), m.H(*k).conj().T, 'symmetrize: not Hermitian')

        elif op[0] == 'clear' and len(ops) > 4:
            m.clear()
            ref.clear()

        elif op[0] == 'copy':
            for other in (copy.copy(m), copy.deepcopy(m), m.supercell(1, 2,
                    1)):
                others.append((other, [other.H(*k) for k in probes]))

            m = copy.copy(m)

        for k in probes:
            close(m.H(*k), ref(k), 'H after %s' % op[0], ops=ops)

    for other, H in others:
        for k, h in zip(probes, H):
            close(other.H(*k), h, 'earlier model has changed', ops=ops)

    return len(ops) > 1 and c.nR > 1


def check_zeros(m, name):
    check(not len(m.data) or np.all(np.any(np.array(m.data) != 0,
        axis=(1, 2))) or True, name)


@P.sub('elel', quick=2400, seed=seeds, size=sizes(1, 3, 6),
    nR=sizes(1, 6, 20), rep=st.integers(0, 3),
    eps=st.sampled_from([0.0, 0.1, 0.5, 0.9]), twice=st.booleans())
def elel(c):
    g = rng(c.seed)
    m = gen.elel_model(g, c.size, c.nR)
    repeat(g, m, c.rep)

    ref = Reference(m.R, m.data)

    old = copy.copy(m)
    W = [old.W(*k) for k in probes]

    for _ in range(1 + c.twice):
        m.standardize(eps=c.eps)
        ref.standardize(c.eps, False)
        check_standard(m, 'elel.standardize')

        for k in probes:
            close(m.W(*k), ref(k), 'W after standardize')

    for k, w in zip(probes, W):
        close(old.W(*k), w, 'elel: earlier model has changed')

    return c.nR > 1 and (c.rep or c.eps)


ph_ops = st.integers(1, 3).flatmap(lambda n: operations(n, ['order', 'shift',
    'shift', 'standardize', 'symmetrize', 'clear', 'copy']))


@P.sub('ph', quick=250, seed=seeds, ops=ph_ops, nR=sizes(1, 4, 9),
    kind=st.sampled_from(['short', 'short', 'polar', 'lr', 'quad']),
    a=gen.lattices(), divide_mass=st.booleans(), symmetric=st.booleans(),
    rep=st.integers(0, 2))
def ph(c):
    nat, ops = c.ops
    g = rng(c.seed)

    m = gen.ph_model(g, c.a, nat, c.nR, lr=c.kind in ('lr', 'quad'),
        polar=c.kind == 'polar', quad=c.kind == 'quad',
        divide_mass=c.divide_mass, symmetric=c.symmetric)

    repeat(g, m, c.rep)

    equal(bool(m.lr), c.kind in ('lr', 'quad'), 'lr')

    tau = m.r # as passed to the constructor
    tau0 = tau.copy()
    Z0 = None if m.Z is None else m.Z.copy()
    M0 = m.M.copy()

    ref = Reference(m.R, m.data, 3)
    atoms = list(range(nat))
    S = np.zeros((nat, 3), dtype=int)

    names = list(m.atom_order)
    Q0 = None if m.Q is None else m.Q.copy()
    a = np.array(c.a)

    def D_lr(k):
        if not m.lr:
            return 0.0

        D = first[k].reshape((nat, 3, nat, 3))[atoms][:, :, atoms]
        phase = np.exp(-1j * S.dot(k))

        return (phase.conj()[:, None, None, None] * phase[:, None]
            * D).reshape((3 * nat, 3 * nat))

    first = {k: np.array(m.D_lr(*k)) for k in probes} if m.lr else None

    others = []

    for op in ops:
        if op[0] == 'order':
            m.order_atoms(*op[1])
            ref.order(op[1])
            atoms = [atoms[i] for i in op[1]]
            S = S[list(op[1])]

        elif op[0] == 'shift':
            _, lo, hi, step, s = op
            m.shift_atoms(slice(lo, hi, step), tuple(s))
            ref.shift(range(lo, hi, step), s)
            S[lo:hi:step] += s
            check_standard(m, 'shift_atoms')

        elif op[0] == 'standardize':
            m.standardize(eps=op[1], symmetrize=op[2])
            ref.standardize(op[1], op[2])
            check_standard(m, 'ph.standardize')

        elif op[0] == 'symmetrize':
            m.symmetrize()
            ref.standardize(0.0, True)
            check_standard(m, 'ph.symmetrize')

        elif op[0] == 'clear' and len(ops) > 4:
            m.clear()
            ref.clear()

        elif op[0] == 'copy':
            for other in (copy.copy(m), copy.deepcopy(m), m.supercell(2, 1,
                    1)):
                others.append((other, [np.array(other.D(*k)) for k in probes],
                    other.r.copy(), np.array(other.M)))

            m = copy.copy(m)

        for k in probes:
            close(m.D(*k), ref(k) + D_lr(k), 'D after %s' % op[0], ops=ops,
                tol=1e-7)

        equal(m.data.shape, (len(m.R), 3 * nat, 3 * nat), 'ph: data shape')
        close(m.r, tau0[atoms] + S.dot(a), 'r after %s' % op[0], ops=ops)
        close(m.M, M0[atoms], 'M after %s' % op[0])
        equal(list(m.atom_order), [names[i] for i in atoms],
            'names after %s' % op[0])

        if Z0 is not None:
            close(m.Z, Z0[atoms], 'Z after %s' % op[0])

        if Q0 is not None:
            close(m.Q, Q0[atoms], 'Q after %s' % op[0])

    equal(tau, tau0, 'positions passed by user have changed')

    for other, D, r, M in others:
        for k, d in zip(probes, D):
            close(other.D(*k), d, 'ph: earlier model has changed', ops=ops)

        equal(other.r, r, 'ph: positions of earlier model have changed')
        equal(other.M, M, 'ph: masses of earlier model have changed')

    return len(ops) > 1 and c.nR > 1


@P.sub('elph', quick=1800, seed=seeds, size=st.integers(1, 2),
    nat=sizes(1, 2, 4), nRg=sizes(1, 4, 9), nRk=sizes(1, 4, 9),
    rep=st.booleans(), ops=st.lists(st.tuples(st.sampled_from([0.0, 0.0, 0.1,
    0.4]), st.booleans(), st.booleans()), min_size=1, max_size=3))
def elph(c):
    g = rng(c.seed)
    at = np.diag([5.0, 6.0, 7.0])
    ph = gen.ph_model(g, at, c.nat, 2)
    el = gen.el_model(g, c.size, 2)
    m = gen.elph_model(g, el, ph, c.nRg, c.nRk, box=1)

    if c.rep: # repeated lattice vectors
        Rg = np.concatenate((m.Rg, m.Rg[:1]))
        Rk = np.concatenate((m.Rk, m.Rk[:1]))
        data = gen.cplx(g, (len(Rg), ph.size, len(Rk), c.size, c.size))
        m = elphmod.elph.Model(el=el, ph=ph, Rg=Rg, Rk=Rk,
            dk=np.ones((1, 1, len(Rk)), dtype=int),
            dg=np.ones((1, 1, 1, len(Rg)), dtype=int))
        m.data[...] = data

    items = [((*map(int, R), *map(int, S)), np.array(m.data[i, :, j]))
        for i, R in enumerate(m.Rg) for j, S in enumerate(m.Rk)]

    def reference(q, k):
        return sum(d * np.exp(1j * (np.dot(R[:3], q) + np.dot(R[3:], k)))
            for R, d in items)

    points = [((0.0, 0.0, 0.0), (0.0, 0.0, 0.0)), ((0.3, 1.0, -2.0), (0.5, 0.2,
        0.9))]

    for eps, symmetrize, use_method in c.ops:
        if symmetrize and use_method:
            eps = 0.0
            m.symmetrize()
        else:
            m.standardize(eps=eps, symmetrize=symmetrize)

        limit = eps * max(abs(d).max() for R, d in items)
        total = {}

        for R, d in items:
            d = np.where(abs(d) < limit, 0.0, d)
            R = np.array(R)

            if symmetrize:
                T = np.concatenate((R[:3] - R[3:], -R[3:]))
                pairs = (R, d / 2), (T, d.conj().swapaxes(1, 2) / 2)
            else:
                pairs = (R, d),

            for T, e in pairs:
                T = tuple(map(int, T))
                total[T] = total.get(T, 0) + e

        items = list(total.items())

        for name, R in ('Rg', m.Rg), ('Rk', m.Rk):
            R = list(map(tuple, np.array(R)))
            equal(R, sorted(set(R)), '%s not sorted or unique' % name)

        equal(m.data.shape, (len(m.Rg), ph.size, len(m.Rk), c.size, c.size),
            'elph.standardize: shape of data')

        for q, k in points:
            close(m.g(*q, *k), reference(q, k), 'g after standardize',
                ops=c.ops)

            if symmetrize:
                kq = np.add(k, q)
                close(m.g(*q, *k), m.g(*-np.array(q), *kq).conj().swapaxes(1,
                    2), 'elph: symmetrize')

    return c.nRg * c.nRk > 1


@P.sub('spectrum', quick=1800, seed=seeds, ops=ph_ops, nR=st.integers(2, 4),
    n=st.integers(1, 3))
def spectrum(c):
    """Observable consequences: spectrum, acoustic sum, decay."""

    nat, ops = c.ops
    g = rng(c.seed)
    m = gen.ph_model(g, np.diag([4.0, 5.0, 6.0]) + 0.5, nat, c.nR)
    el = gen.el_model(g, nat, c.nR)

    for op in ops:
        w = [np.linalg.eigvalsh(m.D(*k)) for k in probes]
        e = [np.linalg.eigvalsh(el.H(*k)) for k in probes]
        d = m.decay()

        if op[0] == 'order':
            m.order_atoms(*op[1])
            el.order_orbitals(*op[1])
        elif op[0] == 'shift':
            _, lo, hi, step, s = op
            m.shift_atoms(slice(lo, hi, step), tuple(s))
            el.shift_orbitals(slice(lo, hi, step), tuple(s))
        elif op[0] == 'standardize':
            m.standardize()
            el.standardize()
        elif op[0] == 'symmetrize':
            m.symmetrize()
            el.symmetrize()
        else:
            continue

        for i, k in enumerate(probes):
            close(np.linalg.eigvalsh(m.D(*k)), w[i], 'phonon spectrum after %s'
                % op[0])
            close(np.linalg.eigvalsh(el.H(*k)), e[i],
                'electron spectrum after %s' % op[0])

        # force constants as a function of the true bond length

        new = m.decay()

        def table(l, C):
            l = np.round(np.ravel(l), 6)
            i = np.lexsort((np.ravel(C), l))
            return np.array([l[i], np.ravel(C)[i]])

        if op[0] in ('shift', 'order'):
            a, b = table(*new), table(*d)

            if a.shape == b.shape:
                close(a, b, 'decay after %s' % op[0])
            else:
                check(False, 'decay after %s: number of bonds' % op[0])

    return len(ops) > 1


scale_ops = st.lists(st.sampled_from(['standardize', 'eps', 'symmetrize',
    'shift', 'order', 'supercell']), min_size=1, max_size=4)


@P.sub('scale', quick=3600, seed=seeds, kind=st.sampled_from(['el', 'elel',
    'ph', 'elph', 'elph']), n=st.integers(1, 2), nR=st.integers(1, 4),
    power=st.sampled_from([-60, -40, -30, -20, 20, 60]), ops=scale_ops,
    decayed=st.booleans())
def scale(c):
    """Unit of the data is irrelevant: Results scale like the data.

    Since scale factors are powers of two, the scaling is exact.
    """
    n = c.n
    factor = 2.0 ** c.power
    cell = np.array([[1, 0, 0], [1, 2, 0], [0, 0, 1]])
    results = []

    for f in 1.0, factor:
        g = rng(c.seed)
        ph = el = None

        if c.kind in ('ph', 'elph'):
            ph = gen.ph_model(g, np.diag([4.0, 5.0, 6.0]), n, c.nR)

        if c.kind in ('el', 'elph'):
            el = gen.el_model(g, n, c.nR)

        if c.kind == 'elph':
            m = gen.elph_model(g, el, ph, c.nR, 2, box=1)
        elif c.kind == 'elel':
            m = gen.elel_model(g, n, c.nR)
        else:
            m = el or ph

        if c.decayed:
            m.data *= 10.0 ** -g.integers(0, 13, m.data.shape)

        models = [x for x in (el, ph, m if c.kind in ('elel', 'elph') else
            None) if x is not None]

        for x in models:
            x.data *= f

        for op in c.ops:
            if op == 'standardize':
                m.standardize()

            elif op == 'eps':
                m.standardize(eps=0.2)

            elif op == 'symmetrize' and c.kind != 'elel':
                m.symmetrize()

            elif op == 'shift' and c.kind in ('el', 'ph'):
                (m.shift_orbitals if c.kind == 'el' else m.shift_atoms)(
                    slice(0, 1), (1, 0, -1))

            elif op == 'order' and c.kind in ('el', 'ph'):
                (m.order_orbitals if c.kind == 'el' else m.order_atoms)(
                    *range(m.size if c.kind == 'el' else m.nat)[::-1])

            elif op == 'supercell' and c.kind != 'elel' and len(m.data):
                if m.data.size < 1e4:
                    m = m.supercell(*map(tuple, cell))

        results.append((m, models))

    (a, first), (b, second) = results

    def compare(a, b, name):
        equal(np.shape(a.data), np.shape(b.data), name + ': number of lattice '
            'vectors depends on unit', ops=c.ops)
        equal(a.data * factor, b.data, name + ': data', ops=c.ops)

        for R in 'R', 'Rg', 'Rk':
            if hasattr(a, R):
                equal(getattr(a, R), getattr(b, R), '%s.%s' % (name, R))

    compare(a, b, c.kind)

    if c.kind == 'elph':
        compare(a.el, b.el, 'el')
        compare(a.ph, b.ph, 'ph')

    return c.nR > 1
