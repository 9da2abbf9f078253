"""S07: Sum-rule corrections enforce the sum rules."""

import os
import tempfile

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, check, close, equal, rng, seeds, st, ints)

P = Property('S07',
    'Random symmetric force constants on random inversion-symmetric sets of '
    'lattice vectors, random charges and couplings, with and without mass '
    'normalization, unit cells and supercells. Non-trivial: the sum rule is '
    'violated before the correction and there is more than one lattice vector '
    'or atom.',
    ['Force constants are symmetric, as those of every model that was read.'])

common = dict(seed=seeds, at=gen.lattices(), nat=st.integers(1, 3),
    nR=st.integers(0, 3), divide_mass=st.booleans())


def bare(ph):
    """Force constants without masses: R, atom, direction, atom, direction."""

    C = ph.data.reshape((len(ph.R), ph.nat, 3, ph.nat, 3)).copy()

    if ph.divide_mass:
        m = np.sqrt(ph.M)
        C *= m[:, None, None, None]
        C *= m[:, None]

    return C


def acoustic(C):
    return C.sum(axis=(0, 3))


def rotation(ph, C):
    """Forces upon rigid rotations around all axes: atom, direction, axis."""

    X = (ph.R.dot(ph.a))[:, None, :] + ph.r

    F = np.zeros((ph.nat, 3, 3))

    for w in range(3):
        u = np.cross(np.eye(3)[w], X)
        F[..., w] = np.einsum('Rkxly,Rly->kx', C, u)

    return F


def constraints(ph, C, asr, rsr):
    """Gradients of all sums with respect to symmetric force constants."""

    rows = []
    X = (ph.R.dot(ph.a))[:, None, :] + ph.r
    index = {tuple(map(int, R)): n for n, R in enumerate(ph.R)}
    minus = [index[tuple(map(int, -R))] for R in ph.R]

    def add(row):
        rows.append((row + row[minus].transpose((0, 3, 4, 1, 2))).ravel())

    for k in range(ph.nat):
        for x in range(3):
            if asr:
                for y in range(3):
                    row = np.zeros_like(C)
                    row[:, k, x, :, y] = 1.0
                    add(row)

            if rsr:
                for w in range(3):
                    row = np.zeros_like(C)
                    row[:, k, x, :, :] = np.cross(np.eye(3)[w], X)
                    add(row)

    return np.array(rows)


@P.sub('correction', quick=3000, asr=st.booleans(), rsr=st.booleans(),
    report=st.booleans(), twice=st.booleans(), **common)
def correction(c):
    g = rng(c.seed)
    ph = gen.ph_model(g, c.at, c.nat, 2 * c.nR + 1, divide_mass=c.divide_mass,
        box=1)

    C0 = bare(ph)
    before = dict(R=ph.R.copy(), M=ph.M.copy(), r=ph.r.copy(), a=ph.a.copy())
    data0 = ph.data.copy()

    elphmod.ph.sum_rule_correction(ph, asr=c.asr, rsr=c.rsr, report=c.report)

    for key, value in before.items():
        equal(getattr(ph, key), value, key)

    C = bare(ph)
    s = np.abs(C0).max()

    if c.asr:
        close(acoustic(C) / s, np.zeros((ph.nat, 3, 3)), 'acoustic sum rule',
            tol=1e-8)

        m = np.sqrt(ph.M) if c.divide_mass else np.ones(ph.nat)

        for x in range(3):
            u = np.zeros((ph.nat, 3))
            u[:, x] = m
            close(ph.D().dot(u.ravel()) / np.abs(data0).max(),
                np.zeros(ph.size), 'translation', tol=1e-6)

    if c.rsr:
        close(rotation(ph, C) / s, np.zeros((ph.nat, 3, 3)),
            'rotation sum rule', tol=1e-6)

    index = {tuple(map(int, R)): n for n, R in enumerate(ph.R)}

    for n, R in enumerate(ph.R):
        m = index[tuple(map(int, -R))]
        close(ph.data[m], ph.data[n].T, 'symmetric force constants')

    # smallest change of all symmetric force constants

    if c.asr or c.rsr:
        A = constraints(ph, C0, c.asr, c.rsr)
        delta = -np.linalg.lstsq(A, A.dot(C0.ravel()), rcond=1e-10)[0]
        close((C - C0).ravel() / s, delta / s, 'minimal correction', tol=1e-6)
    else:
        close(ph.data, data0, 'no sum rule')

    if c.twice:
        data = ph.data.copy()
        elphmod.ph.sum_rule_correction(ph, asr=c.asr, rsr=c.rsr, report=False)
        close(ph.data / np.abs(data0).max(), data / np.abs(data0).max(),
            'sum rules already fulfilled', tol=1e-7)

    return (c.asr or c.rsr) and len(ph.R) * ph.nat > 1


@P.sub('simple', quick=2400, nq=st.tuples(st.integers(1, 3), st.integers(1, 3),
    st.integers(1, 3)), seed=seeds, nat=st.integers(1, 3))
def simple(c):
    """Simple correction changes on-site force constants only."""

    g = rng(c.seed)
    phid = g.standard_normal((c.nat, c.nat, *c.nq, 3, 3))
    old = phid.copy()

    elphmod.ph.asr(phid)

    close(phid.sum(axis=(1, 2, 3, 4)), np.zeros((c.nat, 3, 3)),
        'acoustic sum rule')

    new = phid.copy()

    for i in range(c.nat):
        new[i, i, 0, 0, 0] = old[i, i, 0, 0, 0]

    equal(new, old, 'other force constants')

    again = phid.copy()
    elphmod.ph.asr(again)
    close(again, phid, 'already fulfilled')

    # effective charges

    Z = g.standard_normal((c.nat, 3, 3))
    old = Z.copy()

    elphmod.ph.zasr(Z)

    close(Z.sum(axis=0), np.zeros((3, 3)), 'charge neutrality')
    close(Z - old, np.repeat((Z - old)[:1], c.nat, axis=0),
        'smallest change is equal for all atoms')

    Z2 = Z.copy()
    elphmod.ph.zasr(Z2)
    close(Z2, Z, 'already neutral')

    return c.nat * np.prod(c.nq) > 1


@P.sub('coupling', quick=2400, nel=st.integers(1, 3), zero=st.booleans(),
    fulfilled=st.booleans(), cached=st.booleans(),
    k=st.tuples(*[st.floats(-3, 3)] * 3), **common)
def coupling(c):
    g = rng(c.seed)
    ph = gen.ph_model(g, c.at, c.nat, 3, divide_mass=c.divide_mass)
    elph = gen.elph_model(g, gen.el_model(g, c.nel, 3), ph, c.nR + 1, 3,
        divide_mass=c.divide_mass)

    m = np.sqrt(np.repeat(ph.M, 3)).reshape((-1, 1, 1, 1)) \
        if c.divide_mass else 1.0

    elph.data[...] = elph.data / m

    if c.zero:
        elph.data[np.random.RandomState(c.seed % 2 ** 32).rand(
            *elph.data.shape) < 0.4] = 0.0

    if c.fulfilled:
        elph.asr(report=False)

    if c.cached:
        elph.g(0, 0, 0, *c.k)

    old = elph.data.copy()

    elph.asr(report=False)

    equal(elph.data.shape, old.shape, 'shape')
    equal(elph.data[old == 0], np.zeros_like(elph.data[old == 0]),
        'zeros remain zeros')

    G = (elph.data * m).reshape((len(elph.Rg), ph.nat, 3, len(elph.Rk),
        elph.el.size, elph.el.size))
    G0 = (old * m).reshape(G.shape)

    close(G.sum(axis=(0, 1)), np.zeros(G.shape[2:]), 'sum of couplings')

    # change proportional to magnitude

    total = G0.sum(axis=(0, 1))
    norm = np.abs(G0).sum(axis=(0, 1))
    norm[norm == 0] = 1.0
    close(G, G0 - np.abs(G0) * total / norm, 'constant relative change')

    if c.fulfilled:
        close(G, G0, 'already fulfilled')

    gk = elph.g(0, 0, 0, *c.k)

    for x in range(3):
        u = np.zeros((ph.nat, 3))
        u[:, x] = np.sqrt(ph.M) if c.divide_mass else 1.0
        close(np.einsum('xab,x->ab', gk, u.ravel()), np.zeros(gk.shape[1:]),
            'coupling to rigid translation')

    return not c.fulfilled and len(elph.Rg) * ph.nat > 1


@P.sub('supercell', quick=1200, N=gen.supercells(max_cells=3), rsr=st.booleans(),
    **dict(common, nat=st.integers(1, 2), nR=st.integers(0, 2)))
def supercell(c):
    """Corrections survive and may be applied to supercell models."""

    g = rng(c.seed)
    ph = gen.ph_model(g, c.at, c.nat, 2 * c.nR + 1, divide_mass=c.divide_mass,
        box=1)

    before = ph.supercell(*gen.args(c.N))

    elphmod.ph.sum_rule_correction(ph, rsr=c.rsr, report=False)

    after = ph.supercell(*gen.args(c.N))

    sums = [after]

    if before.nat * len(before.R) < 60:
        elphmod.ph.sum_rule_correction(before, rsr=c.rsr, report=False)
        sums.append(before)

    for x in sums:
        C = bare(x)
        s = max(1.0, np.abs(C).max())
        close(acoustic(C) / s, np.zeros((x.nat, 3, 3)), 'acoustic sum rule',
            tol=1e-7)

        if c.rsr:
            close(rotation(x, C) / s, np.zeros((x.nat, 3, 3)),
                'rotation sum rule', tol=1e-6)

    return gen.nontrivial_supercell(c.N)


@P.sub('file', quick=490, seed=seeds, at=gen.lattices(), nat=st.integers(1, 2),
    nq=st.tuples(st.integers(1, 2), st.integers(1, 2), st.integers(1, 2)),
    mode=st.sampled_from(['none', 'asr', 'simple', 'rsr', 'both']),
    lr=st.booleans(), zasr=st.booleans(), divide_mass=st.booleans())
def file(c):
    """Sum rules requested when reading force constants."""

    g = rng(c.seed)
    a = np.array(c.at)
    r = (gen.positions(g, c.nat, a).dot(np.linalg.inv(a)) % 1).dot(a)
    M = g.uniform(1e3, 5e3, c.nat)

    # symmetric force constants on the mesh

    phid = g.standard_normal((c.nat, c.nat, *c.nq, 3, 3))
    sym = np.empty_like(phid)

    for i, j, *m in np.ndindex(phid.shape[:5]):
        minus = tuple((-x) % n for x, n in zip(m, c.nq))
        sym[(i, j) + tuple(m)] = (phid[(i, j) + tuple(m)]
            + phid[(j, i) + minus].T) / 2

    eps = Z = None

    if c.lr:
        eps = np.eye(3) * 3.0
        Z = g.standard_normal((c.nat, 3, 3))

    kwargs = dict(divide_mass=c.divide_mass, lr=c.lr)

    if c.mode == 'asr':
        kwargs['apply_asr'] = True
    elif c.mode == 'simple':
        kwargs['apply_asr_simple'] = True
    elif c.mode == 'rsr':
        kwargs['apply_rsr'] = True
    elif c.mode == 'both':
        kwargs['apply_asr'] = kwargs['apply_rsr'] = True

    if c.zasr:
        kwargs['apply_zasr'] = True

    with tempfile.TemporaryDirectory() as tmp:
        ifc = os.path.join(tmp, 'x.ifc')
        elphmod.ph.write_flfrc(ifc, sym, M, a, r, ['X%d' % i
            for i in range(c.nat)], epsil=eps, zeu=Z)
        ph = elphmod.ph.Model(ifc, **kwargs)
        raw = elphmod.ph.Model(ifc, divide_mass=c.divide_mass, lr=c.lr)

    C = bare(ph)
    s = np.abs(sym).max()
    zero = np.zeros((c.nat, 3, 3))

    close(acoustic(bare(raw)) / s, sym.sum(axis=(1, 2, 3, 4)) / s,
        'sums in file', tol=1e-6)

    if c.mode in ('asr', 'simple', 'both'):
        close(acoustic(C) / s, zero, 'acoustic sum rule', tol=1e-7)

        m = np.sqrt(ph.M) if c.divide_mass else np.ones(ph.nat)
        D = ph.D() * np.outer(np.repeat(m, 3), np.repeat(m, 3))

        close(D.reshape((ph.size, ph.nat, 3)).sum(axis=1) / s,
            np.zeros((ph.size, 3)), 'translation', tol=1e-6)

    if c.mode in ('rsr', 'both'):
        close(rotation(ph, C) / s, zero, 'rotation sum rule', tol=1e-6)

    if c.mode == 'none':
        equal(ph.data, raw.data, 'no correction requested')

    if c.lr and c.zasr:
        close(ph.Z.sum(axis=0), np.zeros((3, 3)), 'charge neutrality')
        close(ph.Z, raw.Z - raw.Z.mean(axis=0), 'neutral charges')
    elif c.lr:
        equal(ph.Z, raw.Z, 'charges')

    return c.mode != 'none'
