"""S26: Auxiliary quantities and tools are exact."""

import contextlib
import io
import os
import shutil
import stat
import sys
import tempfile

import numpy as np

import elphmod

from vp import gen, qe_mock
from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints,
    raises)
from vp.checks import s18, s19

P = Property('S26',
    'Random parabolas, sample points, clusters of points, interactions and '
    'bands on commensurate meshes, charge densities, couplings, and dynamical '
    'matrices of random crystals (executables of Quantum ESPRESSO are replaced '
    'by stand-ins). Non-trivial: more than the minimal size.',
    ['The coarse meshes are subsets of the fine ones.'])

a0 = 0.529177210903


# --------------------------------------------------------------------------

@P.sub('minimum', quick=2400, seed=seeds, argc=st.integers(1, 9),
    how=st.sampled_from(['args', 'command', 'line', 'ints']),
    power=st.integers(-3, 3))
def minimum(c):
    g = rng(c.seed)

    if c.how == 'ints':
        x = g.choice(np.arange(-20, 21), 3, replace=False)
        x0, y0 = g.integers(-20, 21, 2)
        A = g.choice([-3, -2, -1, 1, 2, 3])
    else:
        x = g.uniform(-1, 1) + np.array([-1, 0.2, 1]) * g.uniform(0.3, 1, 3)
        x = x[g.permutation(3)]
        x0, y0 = g.uniform(-2, 2, 2)
        A = g.choice([-1, 1]) * g.uniform(0.1, 2) * 10.0 ** c.power

    if c.how == 'line':
        x = g.choice(np.arange(-20, 21), 3, replace=False)
        y = g.integers(-3, 4) * x + g.integers(-3, 4)
    else:
        y = A * (x - x0) ** 2 + y0

    args = [*x.tolist(), *y.tolist()]

    argv = sys.argv
    try:
        if c.how == 'command':
            sys.argv = ['minimum'] + ['%.15g' % z for z in args]
            found = elphmod.misc.minimum()
        else:
            # arguments of program that calls this function do not matter
            sys.argv = ['program'] + ['7.5'] * (c.argc - 1)
            found = elphmod.misc.minimum(*args)

        wrong = args[:int(g.integers(6))]
        sys.argv = ['program']
        raises(SystemExit, elphmod.misc.minimum, *wrong,
            message='wrong number of points')
    finally:
        sys.argv = argv

    if c.how == 'line':
        check(found is None, 'extremum of line', found=found)
    else:
        close(found, x0, 'position of extremum', tol=1e-6 * max(1,
            abs(y0 / A)))

    return True


@P.sub('differential', quick=1200, seed=seeds, n=sizes(2, 30, 120),
    integer=st.booleans(), reverse=st.booleans(), power=st.integers(-3, 3))
def differential(c):
    g = rng(c.seed)

    if c.integer:
        x = np.sort(g.choice(np.arange(-100, 100), c.n, replace=False))
    else:
        x = np.sort(g.uniform(-1, 1, c.n)) * 10.0 ** c.power

    if c.reverse:
        x = x[::-1]

    old = x.copy()
    dx = elphmod.misc.differential(x)

    equal(x, old, 'points modified')
    equal(dx.shape, x.shape, 'number of weights')

    for f in np.ones(c.n), x * 1.0, g.standard_normal(c.n):
        total = sum((x[i + 1] - x[i]) * (f[i] + f[i + 1]) / 2
            for i in range(c.n - 1))
        close(f.dot(dx), total, 'trapezoidal rule', tol=1e-12 * max(1,
            abs(x).max() ** 2) * c.n)

    return c.n > 2


@P.sub('group', quick=1800, seed=seeds, n=sizes(1, 25, 60),
    dim=st.integers(1, 3), eps=st.sampled_from([None, 1e-7, 1e-3, 0.1]),
    clusters=st.integers(1, 6))
def group(c):
    g = rng(c.seed)
    eps = c.eps or 1e-7

    # coordinates are multiples of 0.3 eps (chains of neighbors may occur):

    centers = g.integers(-9, 10, (c.clusters, c.dim))
    points = (centers[g.integers(0, c.clusters, c.n)]
        + 0.3 * eps * g.integers(-9, 10, (c.n, c.dim)))

    groups = elphmod.misc.group(points, *[] if c.eps is None else [eps])

    found = sorted(sorted(map(int, x)) for x in groups)

    label = list(range(c.n))
    changed = True
    while changed:
        changed = False
        for i in range(c.n):
            for j in range(c.n):
                if label[j] > label[i] and all(abs(points[i] - points[j])
                        < eps):
                    label[j] = label[i]
                    changed = True

    expected = sorted([i for i in range(c.n) if label[i] == n]
        for n in set(label))

    equal(found, expected, 'neighborhoods')

    return len(expected) < c.n and len(expected) > 1


@P.sub('vector_index', quick=720, seed=seeds, n=sizes(1, 12, 60),
    dim=st.integers(1, 4), box=st.integers(1, 3), integer=st.booleans())
def vector_index(c):
    g = rng(c.seed)
    vectors = g.integers(-c.box, c.box + 1, (c.n, c.dim))
    vector = g.integers(-c.box, c.box + 1, c.dim)

    if g.integers(2):
        vector = vectors[g.integers(c.n)]
    if not c.integer:
        vectors, vector = vectors / 2, vector / 2

    found = elphmod.misc.vector_index(vectors, vector)

    expected = [i for i in range(c.n) if vectors[i].tolist()
        == vector.tolist()]

    if expected:
        equal(int(found), expected[0], 'index')
    else:
        check(found is None, 'vector not in list', found=found)

    return bool(expected)


# --------------------------------------------------------------------------

@P.sub('orbital2band', quick=720, seed=seeds, no=sizes(1, 3, 5),
    nq=sizes(1, 2, 4), mC=st.integers(1, 3), mk=st.integers(1, 2),
    dd=st.booleans(), share=st.booleans(), band=st.integers(0, 2))
def orbital2band(c):
    g = rng(c.seed)
    nq = c.nq
    mk = c.mk

    if nq == 1 and c.seed % 2:
        nq, mk = 3, 1

    nk = nq * mk
    nqC = nq * c.mC
    band = c.band % c.no

    el = gen.el_model(g, c.no, 4)

    U = gen.cplx(g, (nqC, nqC) + (c.no,) * 4)

    if c.dd: # density-density terms only
        new = np.zeros_like(U)
        for a in range(c.no):
            for b in range(c.no):
                new[..., a, a, b, b] = U[..., a, a, b, b]
        full = U
        U = new
    else:
        full = U

    psi = elphmod.dispersion.dispersion_full_nosym(el.H, nk, vectors=True,
        gauge=True)[1][..., band]

    V = elphmod.elel.orbital2band(full, el.H, nq, nk, band=band, dd=c.dd,
        share=c.share)

    if V is None:
        check(elphmod.MPI.comm.rank > 0 and not c.share, 'no result')
        return True

    Q = sorted(elphmod.bravais.irreducibles(nq))
    equal(V.shape, (len(Q),) + (nk,) * 4, 'shape')

    own = np.empty((nk, nk, c.no), dtype=complex)
    unique = True

    for k1 in range(nk):
        for k2 in range(nk):
            e, u = np.linalg.eigh(el.H(2 * np.pi * k1 / nk, 2 * np.pi * k2
                / nk))
            own[k1, k2] = u[:, band]
            if c.no > 1:
                unique &= min(abs(np.delete(e, band) - e[band])) > 1e-3

    for iq, (q1, q2) in enumerate(Q):
        u = U[q1 * nqC // nq, q2 * nqC // nq]

        for p in psi, own:
            left = np.empty((nk, nk, c.no, c.no), dtype=complex)

            for k1 in range(nk):
                for k2 in range(nk):
                    left[k1, k2] = np.outer(p[(k1 + q1 * nk // nq) % nk,
                        (k2 + q2 * nk // nq) % nk], p[k1, k2].conj())

            # U[a, b, c, d] psi(k+q, a) psi*(k, b) psi(K, c) psi*(K+q, d)

            expected = np.einsum('abcd,ijab,IJdc->ijIJ', u, left, left.conj())

            if p is psi:
                close(V[iq], expected, 'band-basis interaction', tol=1e-9)
            elif unique: # diagonal elements and moduli do not depend on gauge
                close(abs(V[iq]), abs(expected), 'modulus', tol=1e-7)
                close(np.einsum('ijij->ij', V[iq]),
                    np.einsum('ijij->ij', expected), 'diagonal', tol=1e-7)

    return c.no > 1 and nk > 1


@P.sub('hartree', quick=720, seed=seeds, n=st.integers(1, 30),
    scale=st.booleans())
def hartree(c):
    g = rng(c.seed)
    G = np.concatenate(([[0, 0, 0]], g.uniform(-3, 3, (c.n - 1, 3))))
    G += np.sign(G) * 0.1
    rho = gen.cplx(g, c.n)
    a = g.uniform(1, 10) if c.scale else 1.0
    volume = g.uniform(10, 1000)

    more = g.integers(4) # only the given number of lattice vectors counts

    found = elphmod.elel.hartree_energy(np.append(rho, gen.cplx(g, more)),
        np.append(G, g.uniform(1, 3, (more, 3)), axis=0), c.n, volume,
        *[a] * c.scale)

    # E = Omega / 2 sum_G 4 pi e^2 |rho(G)|^2 / G^2 with e^2 = 2 Ry a0

    expected = 0.0

    for i in range(1, c.n):
        K = G[i] * 2 * np.pi / (a / a0)
        expected += volume / 2 * 4 * np.pi * 2 * abs(rho[i]) ** 2 / K.dot(K)

    close(found, expected, 'Hartree energy', tol=1e-7, rtol=1e-7)

    return c.n > 2


@P.sub('decay', quick=480, seed=seeds, nel=st.integers(1, 2),
    nat=st.integers(1, 2), nRg=st.integers(1, 6), nRk=st.integers(1, 6),
    zero=st.booleans(), lattice=gen.lattices())
def decay(c):
    g = rng(c.seed)
    at = np.array(c.lattice)
    el = gen.el_model(g, c.nel, 4)
    ph = gen.ph_model(g, at, c.nat, 3)
    elph = gen.elph_model(g, el, ph, c.nRg, c.nRk)

    if c.zero:
        elph.data[g.integers(len(elph.Rg))] = 0.0
        elph.data[:, :, g.integers(len(elph.Rk))] = 0.0

    for name, R, axis in (('decay_epmate', elph.Rk, 2),
            ('decay_epmatp', elph.Rg, 0)):
        expected = []

        for i in range(len(R)):
            largest = abs(np.take(elph.data, i, axis=axis)).max()
            if largest > 0:
                expected.append([np.linalg.norm(R[i].dot(at)) * a0, largest])

        found = np.transpose(getattr(elph, name)())

        close(np.array(found).reshape((-1, 2)),
            np.array(expected).reshape((-1, 2)), name, tol=1e-6, rtol=1e-7)

    return len(elph.Rk) > 1 and len(elph.Rg) > 1


@P.sub('center_mass', quick=240, seed=seeds, nel=st.just(1),
    nat=st.integers(2, 4), kind=st.sampled_from(['dense', 'sparse']),
    name=st.just('fd'), amplitude=st.sampled_from([0.0, 0.01, 1.0]))
def center_mass(c):
    g = rng(c.seed)
    driver = s18.make(c, g, c.nat)
    nat = driver.elph.ph.nat

    u = g.standard_normal((nat, 3)) * c.amplitude
    driver.u = u.ravel().copy()
    driver.center_mass()

    close(driver.u, (u - u.sum(axis=0) / nat).ravel(), 'displacements',
        tol=1e-12)

    return bool(c.amplitude)


@P.sub('snapshot', quick=260, seed=seeds, nel=st.integers(1, 2),
    nat=st.integers(2, 4), kind=st.sampled_from(['dense', 'sparse']),
    name=st.just('fd'), scale=st.sampled_from([None, 1.0, 7.0]),
    size=st.sampled_from([None, 40.0]), padding=st.sampled_from([None, 0.5]),
    basis=st.booleans(), label=st.booleans(), interactive=st.sampled_from([None,
    False, True]), view=st.sampled_from([None, (20, 30)]),
    steps=st.integers(0, 2))
def snapshot(c):
    """Figures of structures and displacements."""

    import matplotlib
    import matplotlib.colors
    import matplotlib.pyplot as plt

    g = rng(c.seed)
    driver = s18.make(c, g, c.nat)
    ph = driver.elph.ph
    nat = ph.nat

    if c.basis:
        orbitals = [[] for na in range(c.nat)]
        for no in range(c.nel):
            orbitals[no].append(no)
        driver.basis = orbitals

    def move():
        driver.u = s18.centered(g, nat, 0.3)
        driver.diagonalize()

    def segments(u, scale):
        r = ph.r + u.reshape((nat, 3))
        return r, r + scale * u.reshape((nat, 3))

    scale = 10.0 if c.scale is None else c.scale
    size = 100.0 if c.size is None else c.size
    padding = 1.0 if c.padding is None else c.padding

    def compare():
        r, end = segments(driver.u, scale)

        close(np.transpose(driver.scatter._offsets3d), r, 'markers')

        expected = np.full(nat, size)
        if c.basis:
            rho = driver.density()
            cell = sum([[x] for x in orbitals], [])
            norb = driver.elph.el.size * c.nat // nat
            at = np.array([sum(rho[n // c.nat * norb + no]
                for no in orbitals[n % c.nat]) for n in range(nat)])
            expected = size * at / at.max()

        close(np.broadcast_to(driver.scatter._sizes3d, (nat,)), expected,
            'marker sizes', tol=1e-6)

        # shafts of all arrows (from end to start) come before their heads:

        shafts = np.array(driver.quiver._segments3d)[:nat]
        for a, b in zip(r, end):
            check(min(np.abs(x[-1] - a).max() + np.abs(x[0] - b).max()
                for x in shafts) < 1e-6, 'arrow', start=a, end=b)

    path = tempfile.mkdtemp(prefix='vp_s26_')

    try:
        move()
        u = driver.u.copy()

        options = {key: c[key] for key in ('scale', 'size', 'padding',
            'interactive') if c[key] is not None}

        if c.view is not None:
            options.update(elev=c.view[0], azim=c.view[1])

        driver.plot(os.path.join(path, 'x.png'), label=c.label, **options)

        equal(driver.u, u, 'displacements modified')
        check(os.path.getsize(os.path.join(path, 'x.png')) > 0, 'figure')
        equal(driver.interactive, bool(c.interactive), 'interactive')

        compare()

        lims = [getattr(driver.axes, 'get_%slim' % x)() for x in 'xyz']
        close(np.array(lims), np.array([ph.r.min(axis=0) - padding,
            ph.r.max(axis=0) + padding]).T, 'limits', tol=1e-6)

        equal((driver.axes.elev, driver.axes.azim), tuple(c.view or (90, -90)),
            'view')

        found = np.broadcast_to(driver.scatter.get_facecolors()[:, :3], (nat,
            3))
        close(sorted((255 * found).round().tolist()), sorted(list(map(float,
            elphmod.misc.colors[X])) for X in ph.atom_order), 'colors')

        if c.label:
            equal([text.get_text() for text in driver.axes.texts], [str(na)
                for na in range(nat)], 'labels')

        for step in range(c.steps):
            move()

            if g.integers(2):
                driver.update_plot()
            else:
                driver.plot(os.path.join(path, 'y.png'))
                equal((driver.axes.elev, driver.axes.azim), tuple(c.view
                    or (90, -90)), 'view')

            compare()
    finally:
        plt.close('all')
        plt.ioff()
        shutil.rmtree(path)

    return True


@P.sub('status', quick=480, seed=seeds, count=st.integers(0, 200),
    width=st.integers(1, 80), nested=st.integers(0, 5))
def status(c):
    """Progress bars."""

    g = rng(c.seed)
    old = elphmod.misc.verbosity
    out = io.StringIO()

    try:
        elphmod.misc.verbosity = 3

        with contextlib.redirect_stdout(out):
            bar = elphmod.misc.StatusBar(c.count, c.width, 'title')

            for n in range(c.count):
                if n == c.nested: # only one bar is shown at a time
                    inner = elphmod.misc.StatusBar(4, title='inner')
                    for m in range(4):
                        inner.update()

                bar.update()

                text = out.getvalue().split('\n')
                equal(text[1].count('='), (n + 1) * c.width // c.count,
                    'progress')

        lines = out.getvalue().split('\n')

        if c.count:
            equal(len(lines), 3, 'lines')
            equal(lines[1:], ['=' * c.width, ''], 'complete bar')
            check(' title ' in lines[0] and len(lines[0]) == max(7, c.width),
                'title', line=lines[0])
        else:
            equal(lines, [''], 'empty bar')

        # progress bars of calculations are completed:

        out = io.StringIO()

        with contextlib.redirect_stdout(out):
            at = np.eye(3)
            el = gen.el_model(g, 2, 4)
            ph = gen.ph_model(g, at, 2, 3)
            elph = gen.elph_model(g, el, ph)
            sc = elph.supercell(1, 2)
            elph.standardize(eps=1e-9)
            ph.standardize(eps=1e-9)
            el.standardize(eps=1e-9)
            sc.el.unit_cell()
            sc.ph.unit_cell()
            k = g.uniform(0, 6, (5, 3))
            e = elphmod.dispersion.dispersion_full_nosym(el.H, 2)
            elphmod.dispersion.sample(ph.D, k)
            elphmod.diagrams.phonon_self_energy([(0, 0)], e, kT=0.1)
            elphmod.elel.Model()
            w = elphmod.dispersion.dispersion(el.H, k[:, :2], vectors=True,
                order=True)

        bars = out.getvalue().split('\n')
        titles = [n for n, line in enumerate(bars) if line.startswith('__')]

        check(len(titles) > 5, 'progress bars', n=len(titles))

        for n in titles:
            equal(bars[n + 1], '=' * 60, 'progress bar of%s'
                % bars[n].replace('_', ''))
    finally:
        elphmod.misc.verbosity = old

    return c.count > 1


# --------------------------------------------------------------------------

@P.sub('interpolate', quick=160, thorough=400, seed=seeds,
    nat=st.integers(1, 3), nq=st.integers(1, 3), lattice=gen.lattices(),
    ibrav=st.booleans(), polar=st.booleans(), half=st.booleans(),
    zero=st.booleans(), divide_mass=st.booleans(), clean=st.booleans(),
    rule=st.sampled_from([None, None, 'apply_asr', 'apply_asr_simple',
    'apply_rsr']), shift=st.booleans())
def interpolate(c):
    g = rng(c.seed)
    nat, nq = c.nat, c.nq

    x = s19.crystal(c, g, nat, c.ibrav)
    kind, celldm, at, tau, names, species, masses = x

    phid = s19.real_space(g, nat, (nq, nq, 1)) * 0.1
    eps, Z = s19.polar(g, nat) if c.polar else (None, None)

    if not gen.searchable((nq, nq, 1), at, tau, tau):
        return False

    mesh = list(np.ndindex(nq, nq))

    if c.half: # q2qstar.x adds -q
        mesh = [m for m in mesh if m <= ((-m[0]) % nq, (-m[1]) % nq)]

    mesh = [(0, 0)] + [mesh[1 + i] for i in g.permutation(len(mesh) - 1)]

    q = []
    for m in mesh:
        m = np.array(m)
        if c.shift and m.any():
            m = m + nq * g.integers(-1, 2, 2)
        q.append(tuple(2 * np.pi * m / nq))

    # matrices with finite number of digits after multiplication with masses:

    m = np.sqrt(np.repeat([masses[X] for X in names], 3))
    mm = np.outer(m, m)

    full = {m: s19.dynmat(phid, 2 * np.pi * np.array([*m, 0]) / nq)
        for m in mesh}

    D = [full[m] / mm if c.divide_mass else full[m] for m in mesh]

    if c.seed % 2:
        D = np.array(D)

    old = [np.array(d) for d in D]

    comm = elphmod.MPI.comm
    first = comm.rank == 0
    cwd = os.getcwd()
    path = comm.bcast(tempfile.mkdtemp(prefix='vp_s26_') if first else None)

    try:
        os.chdir(path)

        if first:
            os.mkdir('bin')

            for name in 'q2qstar', 'q2r':
                exe = os.path.join('bin', name + '.x')
                with open(exe, 'w') as f:
                    f.write('#!/bin/sh\nexec %s -S -E %s %s "$@"\n'
                        % (sys.executable, qe_mock.__file__, name))
                os.chmod(exe, 0o755)

            s19.write_dyn('template', x, [np.zeros(3)], [full[0, 0]], eps, Z)
            s19.write_fc('ref', x, phid, None, eps, Z)

            if not c.zero:
                elphmod.ph.write_q('dyn0', np.zeros((len(q), 3)), nq)

            for name in 'dyn', 'dyn.save', 'dyn%d0' % (len(q) + 1), 'ifc2':
                with open(name, 'w') as f:
                    f.write('unrelated file\n')

        comm.Barrier()

        options = {c.rule: True} if c.rule else dict()

        with contextlib.redirect_stdout(io.StringIO()):
            ph = elphmod.ph.interpolate_dynamical_matrices(D, q, nq,
                fildyn_template='template', fildyn='dyn', flfrc='ifc',
                write_fildyn0=c.zero, divide_mass=c.divide_mass,
                qe_prefix=os.path.join(path, 'bin', ''), clean=c.clean,
                **options)

            comm.Barrier()

            if first:
                files = {'bin', 'template', 'ref', 'dyn', 'dyn.save',
                    'dyn%d0' % (len(q) + 1), 'ifc2'}

                if not c.clean:
                    files |= {'dyn0', 'ifc'}
                    files |= {'dyn%d' % (n + 1) for n in range(len(q))}

                equal(sorted(os.listdir('.')), sorted(files), 'files')

            comm.Barrier()

            if not c.clean:
                again = elphmod.ph.Model('ifc', **options)

                for k in s19.points(g, 2):
                    close(again.D(*k), ph.D(*k), 'force constants')

            ref = elphmod.ph.Model('ref', **options)
    finally:
        os.chdir(cwd)
        if first:
            shutil.rmtree(path)

    for a, b in zip(D, old):
        equal(np.array(a), b, 'input modified')

    s19.same_crystal(ph, x)
    equal(tuple(ph.nq), (nq, nq, 1), 'mesh')
    equal(ph.eps is None, not c.polar, 'dielectric data')

    if c.polar:
        close(ph.eps, eps, 'dielectric tensor', tol=1e-7)
        close(ph.Z, Z, 'effective charges', tol=1e-6)

    tol = 1e-4 if c.polar else 1e-5

    for k in s19.points(g, 3):
        close(ph.D(*k) * mm, ref.D(*k) * mm, 'interpolated matrix', tol=tol)

    if not c.rule and not c.polar: # stand-in does not subtract long range
        for k in np.ndindex(nq, nq):
            k = np.array([*k, 0])
            close(ph.D(*(2 * np.pi * k / nq)) * mm, s19.dynmat(phid,
                2 * np.pi * k / nq), 'matrix on mesh', tol=tol)

    return nq > 1
