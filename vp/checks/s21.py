"""S21: Data files round-trip."""

import os
import shutil
import tempfile

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, Violation, check, close, equal, rng, seeds,
    sizes, st, ints, raises)
from vp.refs import Smearing
from vp.checks.s19 import (crystal, dynmat, real_space, write_dyn,
    write_dyn_xml, write_wannier)

P = Property('S21',
    'Random numbers of bands, k points, atoms, modes, grid points, and values '
    'in all data formats, written by the package or by reference writers in '
    'the format of the producing codes. Non-trivial: more than one band, '
    'point, atom, mode, or value.',
    ['Numbers in files are separated and carry the digits of the format.',
        'Output of the plane-wave code refers to one spin channel.'])

Ry = 13.605693122994
a0 = 0.529177210903
cmm1 = 0.00012398419843320025 # eV


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vp_s21_')
        return lambda name: os.path.join(self.path, name)

    def __exit__(self, *args):
        shutil.rmtree(self.path)


def values(g, shape, scale=None):
    """Floats of all magnitudes, also zero."""

    x = g.uniform(-1, 1, shape)

    if scale is None:
        x = x * 10.0 ** g.integers(-12, 12, shape)
        x = np.where(g.random(shape) < 0.1, 0.0, x)
    else:
        x = x * scale

    return x


def columns(numbers, fmt, n):
    """Fortran-like table with `n` numbers per line."""

    out = ''

    for i in range(0, len(numbers), n):
        out += ''.join(fmt % x for x in numbers[i:i + n]) + '\n'

    return out


shapes = st.tuples(*[st.integers(1, 5)] * 3)


# --------------------------------------------------------------------------
# volumetric data

@P.sub('cube', quick=1800, seed=seeds, shape=shapes, nat=sizes(0, 4, 12),
    per=st.integers(1, 7), blocks=st.booleans())
def cube(c):
    g = rng(c.seed)
    n = np.array(c.shape)
    r0 = np.round(g.uniform(-9, 9, 3), 6)
    voxel = np.round(g.uniform(-1, 1, (3, 3)), 6)
    Z = [int(x) for x in g.integers(1, 100, c.nat)]
    tau = np.round(g.uniform(-9, 9, (c.nat, 3)), 6)
    data = values(g, c.shape)

    with Scratch() as path:
        with open(path('cube'), 'w') as f:
            f.write(' title\n comment 1 2 3\n')
            f.write('%5d%12.6f%12.6f%12.6f\n' % (c.nat, *r0))

            for i in range(3):
                f.write('%5d%12.6f%12.6f%12.6f\n' % (n[i], *voxel[i]))

            for i in range(c.nat):
                f.write('%5d%12.6f%12.6f%12.6f%12.6f\n' % (Z[i], Z[i],
                    *tau[i]))

            if c.blocks: # new line after each pencil
                for pencil in data.reshape((-1, n[2])):
                    f.write(columns(pencil, ' %13.6E', 6))
            else:
                f.write(columns(data.ravel(), ' %13.6E', c.per))

        got = elphmod.misc.read_cube(path('cube'))
        head = elphmod.misc.read_cube(path('cube'), only_header=True)

    for x in got, head:
        close(x[0], r0, 'origin', tol=1e-12)
        close(x[1], n[:, np.newaxis] * voxel, 'spanning vectors', tol=1e-12)
        equal([int(y) for y in x[2]], Z, 'atoms')
        close(x[3], tau, 'positions', tol=1e-12)

    equal(tuple(head[4]), tuple(c.shape), 'shape')
    equal(got[4].shape, tuple(c.shape), 'shape')
    check(np.all(abs(got[4] - data) <= 6e-7 * abs(data)), 'data',
        got=got[4], expected=data)

    return got[4].size > 1


def write_xsf(name, r0, a, X, tau, data, per=6, primvec=True):
    """As Wannier90 does it."""

    with open(name, 'w') as f:
        f.write('      #\n      # Generated by the Wannier90 code\n      #\n')
        f.write('CRYSTAL\n')

        if primvec:
            f.write('PRIMVEC\n')
            for row in a:
                f.write('%12.7f%12.7f%12.7f\n' % tuple(row))
            f.write('CONVVEC\n')
            for row in a:
                f.write('%12.7f%12.7f%12.7f\n' % tuple(row))

        f.write('PRIMCOORD\n%6d  1\n' % len(X))

        for x, r in zip(X, tau):
            f.write('%-5s%12.7f%12.7f%12.7f\n' % (x, *r))

        f.write('\n\nBEGIN_BLOCK_DATAGRID_3D\n3D_field\n')
        f.write('BEGIN_DATAGRID_3D_UNKNOWN\n')
        f.write('%6d%6d%6d\n' % data.shape)
        f.write('%12.6f%12.6f%12.6f\n' % tuple(r0))

        for row in a:
            f.write('%12.7f%12.7f%12.7f\n' % tuple(row))

        f.write(columns([data[i, j, k] for k in range(data.shape[2])
            for j in range(data.shape[1]) for i in range(data.shape[0])],
            ' %12.5e', per))

        f.write('END_DATAGRID_3D\nEND_BLOCK_DATAGRID_3D\n')


@P.sub('xsf', quick=2400, seed=seeds, shape=shapes, nat=sizes(0, 4, 12),
    per=st.integers(1, 7), numbers=st.booleans(), foreign=st.booleans(),
    order=st.booleans())
def xsf(c):
    g = rng(c.seed)
    n = np.array(c.shape)
    r0 = np.round(g.uniform(-9, 9, 3), 6)
    a = np.round(g.uniform(-1, 1, (3, 3)) * 10.0 ** g.integers(0, 3), 7)
    X = [str(x) for x in g.choice(['Ta', 'S', 'C1'], c.nat)]
    tau = np.round(g.uniform(-9, 9, (c.nat, 3)), 7)
    data = values(g, c.shape)

    if c.numbers:
        X = [str(x) for x in g.integers(1, 100, c.nat)]

    if c.order:
        data = np.asfortranarray(data)

    old = data.copy()

    with Scratch() as path:
        if c.foreign:
            write_xsf(path('xsf'), r0, a, X, tau, data, c.per)
        else:
            elphmod.misc.write_xsf(path('xsf'), r0, a, [int(x) for x in X]
                if c.numbers else X, tau, data)
            elphmod.misc.write_xsf(path('head'), r0, a, X, tau, data.shape,
                only_header=True)

            equal(data, old, 'data modified')

            short = elphmod.misc.read_xsf(path('head'), only_header=True)

        got = elphmod.misc.read_xsf(path('xsf'))
        head = elphmod.misc.read_xsf(path('xsf'), only_header=True)

    for x in [got, head] if c.foreign else [got, head, short]:
        close(x[0], r0, 'origin', tol=1e-12)
        close(x[1], a, 'spanning vectors', tol=1e-12)
        equal(list(x[2]), X, 'atoms')
        close(x[3], tau, 'positions', tol=1e-12)

        if x is not got:
            equal(tuple(x[4]), tuple(c.shape), 'shape')

    equal(got[4].shape, tuple(c.shape), 'shape')
    check(np.all(abs(got[4] - data) <= 6e-6 * abs(data)), 'data',
        got=got[4], expected=data)

    # grid:

    r = elphmod.misc.real_space_grid(c.shape, r0, a)
    ref = np.empty((*c.shape, 3))

    for m in np.ndindex(*c.shape):
        ref[m] = r0 + np.dot([m[i] / max(n[i] - 1, 1) for i in range(3)], a)

    close(r, ref, 'grid', tol=1e-12)

    return data.size > 1


@P.sub('wannier_functions', quick=480, seed=seeds, size=st.integers(1, 3),
    shape=st.tuples(*[st.integers(2, 4)] * 3), normalize=st.booleans(),
    buffer=st.booleans(), shared=st.booleans(), ortho=st.booleans())
def wannier_functions(c):
    g = rng(c.seed)
    W = values(g, (c.size, *c.shape), 1.0)
    r0 = np.round(g.uniform(-9, 9, 3), 6)
    a = np.round(g.uniform(-9, 9, (3, 3)), 7)

    if abs(np.linalg.det(a)) < 1:
        return False

    tau = np.round(g.uniform(-9, 9, (2, 3)), 7)

    with Scratch() as path:
        write_wannier(path('x_hr.dat'), np.zeros((1, 3), dtype=int),
            np.ones((1, c.size, c.size)), [1], g)

        for n in range(c.size):
            write_xsf(path('x_%05d.xsf' % (n + 1)), r0, a, ['C', 'H'], tau,
                W[n])

        models = []

        for time in range(1 + c.buffer):
            if time: # not needed any more
                for n in range(1, c.size + 1):
                    os.remove(path('x_%05d.xsf' % n))

            models.append(elphmod.el.Model(path('x'), read_xsf=True,
                normalize_wf=c.normalize, buffer_wf=c.buffer,
                check_ortho=c.ortho, shared_memory=c.shared))

        for el in models:
            equal(list(el.atom_order), ['C', 'H'], 'atoms')
            close(el.tau, tau, 'positions', tol=1e-12)
            close(el.r, elphmod.misc.real_space_grid(c.shape, r0, a), 'grid',
                tol=1e-12)

            voxel = [np.subtract(el.r[m], el.r[0, 0, 0])
                for m in [(1, 0, 0), (0, 1, 0), (0, 0, 1)]]

            close(el.dV, abs(np.linalg.det(voxel)), 'voxel volume', tol=1e-9)

            for n in range(c.size):
                ref = np.round(W[n], 12)

                if c.normalize:
                    ref = ref / np.sqrt(np.sum(ref ** 2) * el.dV)

                close(el.W[n], ref, 'Wannier functions', tol=2e-5)

    return True


# --------------------------------------------------------------------------
# bands

@P.sub('bands', quick=2400, seed=seeds, nbnd=sizes(1, 23, 110),
    nk=sizes(1, 8, 110), cols=st.integers(1, 12), fmt=st.sampled_from([None,
    '%8.3f', '%.9f', '%15.6e']), foreign=st.booleans())
def bands(c):
    g = rng(c.seed)
    k = np.round(g.uniform(-2, 2, (c.nk, 3)), 6)
    e = np.round(g.uniform(-99, 99, (c.nbnd, c.nk)), 3)
    old = k.copy(), e.copy()

    with Scratch() as path:
        if c.foreign:
            with open(path('bands'), 'w') as f:
                f.write(' &plot nbnd=%4d, nks=%6d /\n' % (c.nbnd, c.nk))
                for n in range(c.nk):
                    f.write(' ' * 10 + '%10.6f%10.6f%10.6f' % tuple(k[n])
                        + ['', '*', '  *'][g.integers(3)] + '\n')
                    f.write(columns(e[:, n], '%9.3f', 10))
        else:
            if c.fmt is None:
                elphmod.el.write_bands(path('bands'), k, e)
            else:
                elphmod.el.write_bands(path('bands'), k, e, fmt=c.fmt,
                    cols=c.cols)

            equal(k, old[0], 'k points modified')
            equal(e, old[1], 'energies modified')

        k2, x, e2 = elphmod.el.read_bands(path('bands'))

        # plot:

        with open(path('gnu'), 'w') as f:
            for n in range(c.nbnd):
                for ik in range(c.nk):
                    f.write('%10.4f%10.4f\n' % (x[ik], e[n, ik]))
                f.write('\n')

        if c.nbnd * c.nk > 1:
            x2, e3 = elphmod.el.read_bands_plot(path('gnu'), c.nbnd)

            close(x2, np.round(x, 4), 'plotted distance', tol=1.1e-4, rtol=0)
            close(e3, e.T, 'plotted bands', tol=1e-9)

        with open(path('out'), 'w') as f:
            f.write('\n     Reading data ...\n')
            for y in x:
                f.write('high-symmetry point:  0.0000 0.0000 0.0000   '
                    'x coordinate  %9.4f\n' % y)

        points = elphmod.el.read_symmetry_points(path('out'))

    close(k2, k, 'k points', tol=1e-9)
    close(e2, e, 'bands', tol=1e-4 if not c.foreign and c.fmt == '%15.6e'
        else 1e-9)
    close(x, np.append(0, np.cumsum(np.linalg.norm(np.diff(k, axis=0),
        axis=1))), 'path', tol=1e-9)
    close(np.array(points), x, 'symmetry points', tol=1e-4, rtol=0)

    return c.nbnd > 1 and c.nk > 1


@P.sub('eig', quick=720, seed=seeds, nbnd=sizes(1, 9, 20),
    nk=sizes(1, 9, 20))
def eig(c):
    g = rng(c.seed)
    e = np.round(g.uniform(-99, 99, (c.nbnd, c.nk)), 12)

    with Scratch() as path:
        with open(path('x.eig'), 'w') as f:
            for k in range(c.nk):
                for n in range(c.nbnd):
                    f.write('%12d%12d%22.12f\n' % (n + 1, k + 1, e[n, k]))

        close(elphmod.el.read_wannier90_eig_file(path('x'), c.nbnd, c.nk), e,
            'energies', tol=1e-12)

    return e.size > 1


@P.sub('decay', quick=720, seed=seeds, size=sizes(1, 3, 6),
    nR=sizes(1, 12, 30), ibrav=st.sampled_from([1, 2, 4, 8]))
def decay(c):
    g = rng(c.seed)
    R = gen.vectors(g, c.nR, box=3)
    data = np.round(gen.cplx(g, (len(R), c.size, c.size)), 6)
    ndegen = g.integers(1, 5, len(R))
    a = g.uniform(1, 9, 3)

    with Scratch() as path:
        write_wannier(path('x_hr.dat'), R, data, ndegen, g)

        d, H = elphmod.el.decayH(path('x'), ibrav=c.ibrav, a=a[0], b=a[1],
            c=a[2])

        ref = sorted((np.linalg.norm(np.dot(r, elphmod.bravais.primitives(
            ibrav=c.ibrav, a=a[0], b=a[1], c=a[2]))), abs(h).max() / Ry)
            for r, h in zip(R, data))

        with open(path('decay.H'), 'w') as f:
            f.write('   #   R_e [Ang]       max |H_nm(R_e)| [Ry]\n\n')
            for row in ref:
                f.write('   %19.12f%20.12e\n' % row)

        d2, H2 = elphmod.el.read_decayH(path('decay.H'))

    # same distances in any order:
    close(np.array(sorted(zip(d, H)))[:, 0], np.array(ref)[:, 0], 'distances',
        tol=1e-9)
    close(np.sort(H), np.sort(np.array(ref)[:, 1]), 'maxima', tol=1e-9)
    close(np.array([d2, H2]).T, np.array(ref), 'file', tol=1e-11)

    return len(R) > 1


# --------------------------------------------------------------------------
# atomic projections

def write_projections(name, k, e, mu, proj, old=False):
    nk, nbnd, no = proj.shape

    with open(name, 'w') as f:
        if not old:
            f.write('<PROJECTIONS>\n')
            f.write('<HEADER NUMBER_OF_BANDS="%d" NUMBER_OF_K-POINTS="%d" '
                'NUMBER_OF_SPIN_COMPONENTS="1" NUMBER_OF_ATOMIC_WFC="%d" '
                'NUMBER_OF_ELECTRONS="%.15E" FERMI_ENERGY="%.15E"/>\n'
                % (nbnd, nk, no, 4.0, mu))
            f.write('<EIGENSTATES>\n')

            for ik in range(nk):
                f.write('<K-POINT Weight="1.000000000000000E+00">\n')
                f.write(''.join('%24.15E' % x for x in k[ik]) + '\n')
                f.write('</K-POINT>\n<E>\n')
                f.write(columns(e[ik], '%24.15E', 3) + '</E>\n')
                f.write('<PROJS>\n')

                for a in range(no):
                    f.write('<ATOMIC_WFC index="%d" spin="1">\n' % (a + 1))
                    for z in proj[ik, :, a]:
                        f.write('%24.15E%24.15E\n' % (z.real, z.imag))
                    f.write('</ATOMIC_WFC>\n')

                f.write('</PROJS>\n')

            f.write('</EIGENSTATES>\n</PROJECTIONS>\n')
            return

        f.write('<?xml version="1.0"?>\n<?iotk version="1.2.0"?>\n<Root>\n')
        f.write('  <HEADER>\n')

        for tag, kind, value in [('NUMBER_OF_BANDS', 'integer', nbnd),
                ('NUMBER_OF_K-POINTS', 'integer', nk),
                ('NUMBER_OF_SPIN_COMPONENTS', 'integer', 1),
                ('NUMBER_OF_ATOMIC_WFC', 'integer', no),
                ('FERMI_ENERGY', 'real', mu)]:
            f.write('    <%s type="%s" size="1">\n' % (tag, kind))
            f.write('      %d\n' % value if kind == 'integer' else '%.15E\n'
                % value)
            f.write('    </%s>\n' % tag)

        f.write('  </HEADER>\n  <K-POINTS type="real" size="%d" '
            'columns="3">\n' % (3 * nk))

        for x in k:
            f.write(''.join('%24.15E' % y for y in x) + '\n')

        f.write('  </K-POINTS>\n  <EIGENVALUES>\n')

        for ik in range(nk):
            f.write('    <K-POINT.%d>\n' % (ik + 1))
            f.write('      <EIG type="real" size="%d">\n' % nbnd)
            f.write(columns(e[ik], '%24.15E', 1))
            f.write('      </EIG>\n    </K-POINT.%d>\n' % (ik + 1))

        f.write('  </EIGENVALUES>\n  <PROJECTIONS>\n')

        for ik in range(nk):
            f.write('    <K-POINT.%d>\n' % (ik + 1))

            for a in range(no):
                f.write('      <ATMWFC.%d type="complex" size="%d">\n' % (a
                    + 1, nbnd))
                for z in proj[ik, :, a]:
                    f.write('%24.15E,%24.15E\n' % (z.real, z.imag))
                f.write('      </ATMWFC.%d>\n' % (a + 1))

            f.write('    </K-POINT.%d>\n' % (ik + 1))

        f.write('  </PROJECTIONS>\n</Root>\n')


@P.sub('projections', quick=1800, seed=seeds, nbnd=sizes(1, 7, 15),
    nk=sizes(1, 5, 12), no=sizes(1, 5, 14), old=st.booleans(),
    fermi=st.booleans(), squared=st.booleans(), other=st.booleans(),
    order=st.booleans(), mean=st.booleans(), sorted=st.booleans())
def projections(c):
    g = rng(c.seed)
    k = g.uniform(-1, 1, (c.nk, 3))
    e = g.uniform(-99, 99, (c.nk, c.nbnd))

    if c.sorted: # unless, e.g., spin channels follow each other
        e.sort()

    mu = float(g.uniform(-9, 9))
    order = c.order and c.no >= c.nbnd

    if order: # smoothly varying complete states, crossing bands
        no = c.no
        U = np.linalg.qr(gen.cplx(g, (no, no)))[0]
        perm = [g.permutation(c.nbnd) for ik in range(c.nk)]
        perm[0] = np.arange(c.nbnd)
        proj = np.array([U.T[:c.nbnd][p] for p in perm])
        proj = proj * np.exp(1j * g.uniform(0, 9, (c.nk, c.nbnd, 1)))
    else:
        proj = gen.cplx(g, (c.nk, c.nbnd, c.no)) / np.sqrt(c.no)

    kwargs = dict(from_fermi=c.fermi, order=order)

    if order:
        kwargs.update(by_mean=c.mean, status=False)

    if not c.old:
        kwargs.update(squared=c.squared, other=c.other and c.squared)

    with Scratch() as path:
        write_projections(path('xml'), k, e, mu, proj, old=c.old)

        x, k2, e2, p2 = (elphmod.el.read_atomic_projections_old if c.old
            else elphmod.el.read_atomic_projections)(path('xml'), **kwargs)

    if c.fermi:
        e = e - mu

    if order: # initial order is kept or bands are sorted by mean energy
        inverse = np.array([np.argsort(p) for p in perm])

        if c.mean:
            mean = np.take_along_axis(e, inverse, axis=1).sum(axis=0)
            inverse = inverse[:, np.argsort(mean)]

        e = np.array([e[ik, inverse[ik]] for ik in range(c.nk)])
        proj = np.array([proj[ik, inverse[ik]] for ik in range(c.nk)])

    if c.old or c.squared:
        proj = abs(proj) ** 2

    if not c.old and c.squared and c.other:
        proj = np.concatenate((proj, 1 - proj.sum(axis=2, keepdims=True)),
            axis=2)

    close(k2, k, 'k points', tol=1e-12)
    close(x, np.append(0, np.cumsum(np.linalg.norm(np.diff(k, axis=0),
        axis=1))), 'path', tol=1e-12)
    close(e2, e, 'energies', tol=1e-11)
    close(p2, proj, 'projections', tol=1e-11)

    return c.nbnd > 1 and c.nk > 1


LABELS = [['s'], ['pz', 'px', 'py'], ['dz2', 'dxz', 'dyz', 'dx2-y2', 'dxy'],
    ['fz3', 'fxz2', 'fyz2', 'fz(x2-y2)', 'fxyz', 'fx(x2-3y2)', 'fy(3x2-y2)']]


@P.sub('orbitals', quick=3000, seed=seeds, soc=st.booleans(),
    natom=sizes(1, 4, 12), other=st.booleans(), rest=st.booleans())
def orbitals(c):
    """Names of orbitals and sums over them."""

    g = rng(c.seed)
    species = [str(x) for x in g.choice(['Ta', 'S', 'C', 'Mo'], c.natom)]
    shells = dict((X, [(int(g.integers(1, 7)), int(g.integers(0, 4)))
        for i in range(int(g.integers(1, 4)))]) for X in set(species))

    lines = []
    states = [] # element, n, l, m

    for na, X in enumerate(species, 1):
        for wfc, (n, l) in enumerate(dict.fromkeys(shells[X]), 1):
            if c.soc:
                js = [l + 0.5] if l == 0 else [l - 0.5, l + 0.5]
                jm = [(j, m - j) for j in js for m in range(int(2 * j) + 1)]

                for j, m in jm:
                    states.append((X, n, l, None))
                    lines.append('     state #%4d: atom %3d (%-3s), wfc %2d '
                        '(l=%1d j=%3.1f m_j=%4.1f)' % (len(states), na, X, n,
                        l, j, m))
            else:
                for m in range(2 * l + 1):
                    states.append((X, n, l, m))
                    lines.append('     state #%4d: atom %3d (%-3s), wfc %2d '
                        '(l=%1d m=%2d)' % (len(states), na, X, n, l, m + 1))

    def base(X, n, l, m):
        return X, '%d%s' % (n, 'spdf'[l] if m is None else LABELS[l][m])

    names = []

    for i, s in enumerate(states):
        X, label = base(*s)
        same = [j for j, t in enumerate(states) if t == s]
        index = same.index(i) + 1 if len(same) > 1 else None
        names.append((X, index, label, s))

    expected = ['%s%s-%s' % (X, '' if i is None else i, label)
        for X, i, label, s in names]

    with Scratch() as path:
        with open(path('out'), 'w') as f:
            f.write('\n     Program PROJWFC starts\n\n')
            f.write('  Problem Sizes \n  natomwfc = %12d\n\n' % len(states))
            f.write('     Atomic states used for projection\n')
            f.write('     (read from pseudopotential files):\n\n')
            f.write('\n'.join(lines) + '\n\n')
            f.write(' k =   0.0000000000  0.0000000000  0.0000000000\n')

        got = elphmod.el.read_projwfc_out(path('out'), other=c.other)

    equal(got, expected + ['X-x'] * c.other, 'names of orbitals')

    # sums over random selections:

    nk, nbnd = int(g.integers(1, 4)), int(g.integers(1, 4))
    proj = g.random((nk, nbnd, len(got))) / len(got)

    def selection():
        """Expression and function whether orbital belongs to it."""

        X, i, label, (_, n, l, m) = names[int(g.integers(len(names)))]

        kind = int(g.integers(8))
        shell = 'spdf'[l]
        full = X + ('' if i is None else str(i))

        if kind == 0:
            return X, lambda o: o[0] == X
        if kind == 1:
            return '%s-%s' % (X, shell), lambda o: (o[0] == X
                and 'spdf'[o[3][2]] == shell)
        if kind == 2:
            return '%s-%s' % (full, label), lambda o: (o[0], o[1], o[2]) == (X,
                i, label)
        if kind == 3:
            return shell, lambda o: 'spdf'[o[3][2]] == shell
        if kind == 4:
            return '%s-%d' % (X, n), lambda o: o[0] == X and o[3][1] == n
        if kind == 5:
            return full, lambda o: (o[0], o[1]) == (X, i) if i is not None \
                else o[0] == X
        if kind == 6:
            return '%d%s' % (n, shell), lambda o: o[3][1:3] == (n, l)
        if c.soc or l == 0:
            return '%s-%s' % (X, shell), lambda o: (o[0] == X
                and 'spdf'[o[3][2]] == shell)

        ms = [int(x) for x in g.permutation(2 * l + 1)[:int(g.integers(1,
            4))]]

        return '%s-%s{%s}' % (X, shell, ','.join(LABELS[l][x][1:]
            for x in ms)), lambda o: (o[0] == X and o[3][2] == l
            and o[3][3] in ms)

    groups = []
    sums = []

    for n in range(int(g.integers(1, 4))):
        parts = [selection() for i in range(int(g.integers(1, 4)))]
        groups.append(g.choice([',', ', ']).join(p[0] for p in parts))
        chosen = [a for a, o in enumerate(names)
            if any(p[1](o) for p in parts)]
        sums.append(proj[:, :, chosen].sum(axis=2))

        if c.other and g.integers(4) == 0:
            groups[-1] += ', x'
            sums[-1] = sums[-1] + proj[:, :, -1]

    old = proj.copy()
    new = elphmod.el.proj_sum(proj, got, *groups, other=c.rest)
    equal(proj, old, 'projections modified')

    sums = np.array(sums).transpose((1, 2, 0))

    if c.rest:
        sums = np.concatenate((sums, 1 - sums.sum(axis=2, keepdims=True)),
            axis=2)

    close(new, sums, 'sum over orbitals', tol=1e-12, groups=groups,
        names=got)

    return len(states) > 1


# --------------------------------------------------------------------------
# output of pw.x

QE = {'Fermi-Dirac': 'fd', 'Gaussian': 'gauss', 'Marzari-Vanderbilt': 'mv',
    'Methfessel-Paxton': 'mp'}


@P.sub('pwo', quick=2400, seed=seeds, nbnd=sizes(1, 20, 40),
    nk=sizes(1, 6, 12), occ=st.sampled_from(['metal', 'gap', 'full',
    'none']), smearing=st.sampled_from(sorted(QE)), steps=st.integers(1, 3),
    silent=st.booleans(), subset=st.sampled_from([None, 'list', 'array']))
def pwo(c):
    g = rng(c.seed)

    Ne = float(g.integers(1, 40))
    kT = round(float(g.uniform(1e-3, 5e-2)), 4)
    k = np.round(g.uniform(-1, 1, (c.nk, 3)), 7)
    w = np.round(g.uniform(0, 1, c.nk), 7)

    out = '     Program PWSCF v.7 starts\n\n'
    out += '     number of atoms/cell      =            3\n'
    out += '     number of electrons       = %12.2f\n' % Ne
    out += '     number of Kohn-Sham states= %12d\n' % c.nbnd
    out += '     kinetic-energy cutoff     =      40.0000  Ry\n\n'
    out += '     number of k points= %5d  %s smearing, width (Ry)=%8.4f\n' % (
        c.nk, c.smearing, kT)
    out += '                       cart. coord. in units 2pi/alat\n'

    for i in range(c.nk):
        out += '        k(%5d) = (%12.7f%12.7f%12.7f), wk =%12.7f\n' % (i + 1,
            *k[i], w[i])

    out += '\n     Dense  grid:    1000 G-vectors\n\n'

    for step in range(c.steps):
        e = np.round(np.sort(g.uniform(-40, 20, (c.nk, c.nbnd))), 4)
        mu = None
        parts = dict()

        out += '     End of self-consistent calculation\n\n'

        if c.silent:
            out += '     Number of k-points >= 100: set verbosity=\'high\' ' \
                'to print the bands.\n\n'
        else:
            for i in range(c.nk):
                out += ('          k =%7.4f%7.4f%7.4f (%6d PWs)   bands (ev):'
                    '\n\n' % (*k[i], 100))
                out += ''.join('  ' + row + '\n' for row in columns(e[i],
                    '%9.4f', 8).split('\n')[:-1]) + '\n'

        if c.occ == 'metal':
            mu = round(float(g.uniform(-20, 10)), 4)
            out += '     the Fermi energy is %10.4f ev\n\n' % mu
        elif c.occ == 'gap':
            homo, lumo = np.round(np.sort(g.uniform(-20, 10, 2)), 4)
            mu = (homo + lumo) / 2
            out += '     highest occupied, lowest unoccupied level (ev): ' \
                '%10.4f%10.4f\n\n' % (homo, lumo)
        elif c.occ == 'full':
            mu = round(float(g.uniform(-20, 10)), 4)
            out += '     highest occupied level (ev): %10.4f\n\n' % mu

        else:
            out += '     the spin up/dw Fermi energies are %10.4f%10.4f ev' \
                '\n\n' % tuple(g.uniform(-20, 10, 2))

        E = round(float(g.uniform(-999, -1)), 8)
        out += '!    total energy              =%17.8f Ry\n' % E
        out += '     estimated scf accuracy    <%17.8f Ry\n' % 1e-9

        if c.occ == 'metal':
            F = round(float(g.uniform(-1, 0)), 8)
            out += '     smearing contrib. (-TS)   =%17.8f Ry\n' % F
            out += '     internal energy E=F+TS    =%17.8f Ry\n' % (E - F)
            parts['smearing'] = F

        out += '\n     The total energy is the sum of the following terms:\n'

        for key, tag in [('one-electron', 'one-electron contribution'),
                ('hartree', 'hartree contribution     '),
                ('xc', 'xc contribution          '),
                ('ewald', 'ewald contribution       ')]:
            parts[key] = round(float(g.uniform(-99, 99)), 8)
            out += '     %s =%17.8f Ry\n' % (tag, parts[key])

        parts['total'] = E
        out += '\n     convergence has been achieved in  12 iterations\n\n'

    with Scratch() as path:
        with open(path('out'), 'w') as f:
            f.write(out)

        got = elphmod.el.read_pwo(path('out'))
        eF = elphmod.el.read_Fermi_level(path('out'))
        terms = elphmod.el.read_energy_contributions_scf_out(path('out'))

        equal(got[1], Ne, 'number of electrons')
        close(got[2], E * Ry, 'total energy', tol=1e-9)

        if c.silent:
            check(got[0] is None, 'energies')
        else:
            close(got[0], e - (mu or 0), 'energies', tol=1e-9)

        if c.occ in ('metal', 'full'):
            equal(eF, mu, 'Fermi level')
        elif c.occ == 'none':
            equal(eF, None, 'Fermi level')

        equal(sorted(terms), sorted(parts), 'contributions')

        for key in parts:
            close(float(terms[key]), parts[key], 'contribution ' + key,
                tol=1e-12)

        if c.occ != 'metal' or c.silent:
            return c.nbnd > 1

        x = elphmod.el.read_eps_nk_from_qe_pwo(path('out'))

        s = Smearing(QE[c.smearing])

        f = s.f((e - mu) / (kT * Ry))

        close(x[0], e, 'energies', tol=1e-9)
        close(x[1], np.column_stack((k, w)), 'k points', tol=1e-9)
        close(x[2], f, 'occupations', tol=1e-7)
        equal(x[3], c.smearing, 'smearing')
        close(x[4], mu, 'chemical potential', tol=1e-9)
        close(x[5], kT * Ry, 'smearing width', tol=1e-9)

        subset = None
        chosen = np.arange(c.nbnd)

        if c.subset:
            chosen = g.permutation(c.nbnd)[:int(g.integers(1, c.nbnd + 1))]
            subset = chosen if c.subset == 'array' else [int(n)
                for n in chosen]

        band = elphmod.el.eband(path('out'), subset)
        demet = elphmod.el.demet_from_qe_pwo(path('out'), subset)

        close(band, np.einsum('k,kn,kn', w, f[:, chosen], e[:, chosen]) / Ry,
            'band energy', tol=1e-6)
        close(demet, -np.einsum('k,kn->', w, s.S((e[:, chosen] - mu) / (kT
            * Ry))) * kT, 'smearing contribution', tol=1e-6)

    return c.nbnd > 1


# --------------------------------------------------------------------------
# charge density and wave functions

@P.sub('pp_density', quick=1440, seed=seeds, shape=shapes,
    nat=sizes(1, 6, 14), ibrav=st.sampled_from([0, 1, 2, 3, 4, 6, 8, 12]),
    title=st.booleans())
def pp_density(c):
    g = rng(c.seed)
    nr = int(np.prod(c.shape))
    rho = g.uniform(0, 2, nr)
    celldm = np.round(g.uniform(0.5, 3, 6), 8)
    celldm[3:] = [round(float(g.uniform(-0.5, 0.5)), 8), 0, 0]
    celldm[0] *= g.choice([0.3, 1.0, 3.0])

    if c.ibrav == 0:
        at = np.round(g.uniform(-1, 1, (3, 3)), 9)
        volume = abs(np.linalg.det(at)) * celldm[0] ** 3
    else:
        factor = {1: 1.0, 2: 0.25, 3: 0.5, 4: np.sqrt(3) / 2 * celldm[2],
            6: celldm[2], 8: celldm[1] * celldm[2], 12: celldm[1] * celldm[2]
            * np.sqrt(1 - celldm[3] ** 2)}[c.ibrav]
        volume = factor * celldm[0] ** 3

    ntyp = int(g.integers(1, 3))

    with Scratch() as path:
        with open(path('rho'), 'w') as f:
            f.write(' ' * 75 + '\n')
            f.write(''.join('%8d' % n for n in (*c.shape, *c.shape, c.nat,
                ntyp)) + '\n')
            f.write('%6d' % c.ibrav + ''.join('%14.8f' % x for x in celldm)
                + '\n')

            if c.ibrav == 0:
                for row in at:
                    f.write('%16.9f%16.9f%16.9f\n' % tuple(row))

            f.write('%20.10f%20.10f%20.10f%6d\n' % (100.0, 4.0, 40.0, 0))

            for n in range(ntyp):
                f.write('%4d   %-2s   %5.2f\n' % (n + 1, 'XY'[n], 4.0))

            for n in range(c.nat):
                f.write('%4d   %15.9f%15.9f%15.9f   %2d\n' % (n + 1,
                    *g.uniform(-1, 1, 3), 1))

            f.write(columns(rho, '%17.9E', 5))

        got, Q = elphmod.el.read_pp_density(path('rho'))

    close(got, rho, 'density', tol=1e-8)
    close(Q, rho.mean() * volume, 'total charge', tol=1e-7)

    return nr > 1


def record(f, *arrays):
    """Fortran record."""

    data = b''.join(np.asarray(x).tobytes() for x in arrays)
    n = np.int32(len(data)).tobytes()
    f.write(n + data + n)


@P.sub('binary', quick=1440, seed=seeds, ngm=st.integers(1, 9),
    nbnd=st.integers(1, 4), npol=st.integers(1, 2), kind=st.sampled_from([
    'rho', 'wfc']), ibrav=st.sampled_from([1, 2, 3, -3, 4, 6, 7, 8, 9, -9, 91,
    10, 11]))
def binary(c):
    """Charge density and wave functions in reciprocal space."""

    g = rng(c.seed)
    a, b, cc = g.uniform(1, 9, 3)
    at = elphmod.bravais.primitives(c.ibrav, a=a, b=b, c=cc, bohr=True)
    bg = 2 * np.pi * np.linalg.inv(at).T
    mill = g.integers(-9, 10, (c.ngm, 3)).astype(np.int32)
    i4 = np.int32
    alat = a / a0

    with Scratch() as path:
        with open(path('x.dat'), 'wb') as f:
            if c.kind == 'rho':
                data = gen.cplx(g, c.ngm)
                record(f, i4(0), i4(c.ngm), i4(1))
                record(f, bg)
                record(f, mill)
                record(f, data)
            else:
                xk = bg.T.dot(g.uniform(-1, 1, 3))
                data = gen.cplx(g, (c.nbnd, c.npol * c.ngm))
                record(f, i4(3), xk, i4(1), i4(0), np.float64(1.0))
                record(f, i4(c.ngm + 5), i4(c.ngm), i4(c.npol), i4(c.nbnd))
                record(f, bg)
                record(f, mill)
                for row in data:
                    record(f, row)

        G = mill.dot(bg) * alat / (2 * np.pi)

        if c.kind == 'rho':
            rho, g_vect, ngm, volume, mill_g = elphmod.el.read_rhoG_density(
                path('x.dat'), c.ibrav, a=a, b=b, c=cc)

            equal(rho, data, 'density')
            equal(int(ngm), c.ngm, 'number of vectors')
            close(volume, abs(np.linalg.det(at)), 'volume', tol=1e-9)
        else:
            evc, igwx, k, k_plus_G, g_vect, mill_g = elphmod.el.read_wfc(
                path('x.dat'), c.ibrav, a=a, b=b, c=cc)

            equal(evc, data, 'wave functions')
            equal(int(igwx), c.ngm, 'number of vectors')
            close(k, xk * alat / (2 * np.pi), 'k point', tol=1e-9)
            close(k_plus_G, k + G, 'k + G', tol=1e-8)

        equal(mill_g, mill, 'Miller indices')
        close(g_vect, G, 'reciprocal lattice vectors', tol=1e-8)

    return c.ngm > 1


# --------------------------------------------------------------------------
# arrays

@P.sub('data', quick=1800, seed=seeds, shape=st.lists(st.integers(1, 12),
    min_size=0, max_size=4), kind=st.sampled_from(['float', 'complex', 'int']),
    order=st.booleans())
def data(c):
    g = rng(c.seed)

    if np.prod(c.shape) > 500:
        return False

    x = np.array(values(g, c.shape))

    if c.kind == 'complex':
        x = x + 1j * values(g, c.shape)
    elif c.kind == 'int':
        x = np.array(g.integers(-9999, 9999, c.shape))

    if c.order:
        x = np.transpose(np.transpose(x).copy())

    with Scratch() as path:
        elphmod.elph.write_data(path('data'), x)
        y = elphmod.elph.read_data(path('data'))

    equal(y.shape, x.shape, 'shape')
    equal(np.iscomplexobj(y), c.kind == 'complex', 'type')
    check(np.all(abs(y - x) <= 1e-9 * abs(x)), 'data', got=y, expected=x)

    return x.size > 1


@P.sub('load', quick=960, seed=seeds, shape=st.lists(st.integers(1, 4),
    min_size=1, max_size=3), txt=st.booleans(), shared=st.booleans(),
    missing=st.booleans(), order=st.booleans())
def load(c):
    g = rng(c.seed)
    x = values(g, c.shape)

    if c.order:
        x = np.asfortranarray(x)

    with Scratch() as path:
        name = path('x.txt' if c.txt else 'x.npy')

        if not c.missing:
            if c.txt:
                x = x.reshape((c.shape[0], -1))
                np.savetxt(name, x)
                x = np.loadtxt(name)
            else:
                np.save(name, x)

        y = elphmod.MPI.load(name, shared_memory=c.shared, txt=c.txt)

        if c.missing:
            equal(y.size, 0, 'size of missing array')
        else:
            equal(np.array(y), x, 'array')

        # any object:

        obj = dict(a=x.tolist(), b=[None, 'x', {1: 2.5}], c=c.shared)

        buffer = elphmod.MPI.Buffer(path('buf'))

        check(buffer.get() is None, 'no buffer yet')
        buffer.set(obj)
        equal(elphmod.MPI.Buffer(path('buf')).get(), obj, 'buffered object')
        buffer.set([1])
        equal(buffer.get(), [1], 'overwritten object')

        none = elphmod.MPI.Buffer()
        none.set(obj)
        check(none.get() is None, 'no buffer')

    return x.size > 1


# --------------------------------------------------------------------------
# electron-phonon coupling

def mesh_vectors(angle, nk):
    a1, a2 = elphmod.bravais.translations(angle)
    b = np.linalg.inv([a1, a2]).T

    return [np.array([k1, k2]).dot(b) / nk for k1 in range(nk)
        for k2 in range(nk)]


@P.sub('xml', quick=1200, seed=seeds, nq=sizes(1, 3, 12),
    nmodes=sizes(1, 3, 12), nk=sizes(1, 3, 5), nbnd=sizes(1, 3, 12),
    foreign=st.booleans(), angle=st.sampled_from([60, 90, 120]),
    squeeze=st.booleans(), short=st.booleans(), select=st.booleans())
def xml(c):
    g = rng(c.seed)
    data = gen.cplx(g, (c.nq, c.nmodes, c.nk, c.nk, c.nbnd, c.nbnd)) * 10.0 \
        ** g.integers(-5, 5)

    bands = [int(x) for x in g.permutation(c.nbnd)[:int(g.integers(1, c.nbnd
        + 1))]] if c.select else list(range(c.nbnd))
    qs = [int(x) for x in g.permutation(c.nq)[:int(g.integers(1, c.nq + 1))]] \
        if c.select else c.nq
    reps = [int(x) for x in g.permutation(c.nmodes)[:int(g.integers(1,
        c.nmodes + 1))]] if c.select else c.nmodes

    with Scratch() as path:
        name = path('q%d.r%d.xml')

        if c.foreign:
            k = mesh_vectors(c.angle, c.nk)

            for iq in range(c.nq):
                for ir in range(c.nmodes):
                    with open(name % (iq + 1, ir + 1), 'w') as f:
                        f.write('<?xml version="1.0" encoding="UTF-8"?>\n'
                            '<Root>\n<EL_PHON_HEADER>\n<DONE_ELPH>true'
                            '</DONE_ELPH>\n</EL_PHON_HEADER>\n'
                            '<PARTIAL_EL_PHON>\n<NUMBER_OF_K>%d'
                            '</NUMBER_OF_K>\n<NUMBER_OF_BANDS>%d'
                            '</NUMBER_OF_BANDS>\n' % (c.nk ** 2, c.nbnd))

                        for i in g.permutation(c.nk ** 2):
                            i1, i2 = divmod(i, c.nk)
                            f.write('<K_POINT.%d>\n<COORDINATES_XK>\n%23.15E'
                                '%24.15E%24.15E\n</COORDINATES_XK>\n'
                                '<PARTIAL_ELPH>\n' % (i + 1, *k[i], 0))

                            for n in range(c.nbnd):
                                for m in range(c.nbnd):
                                    z = data[iq, ir, i1, i2, m, n]
                                    f.write('%23.15E%24.15E\n' % (z.real,
                                        z.imag))

                            f.write('</PARTIAL_ELPH>\n</K_POINT.%d>\n' % (i
                                + 1))

                        f.write('</PARTIAL_EL_PHON>\n</Root>\n')
        else:
            given = data

            if c.short and c.nbnd == 1:
                given = data[..., 0, 0]

            elphmod.elph.write_xml_files(name, given, angle=c.angle)

        got = elphmod.elph.read_xml_files(name, qs, reps, bands
            if c.select or c.nbnd > 1 else 0, c.nbnd, c.nk, squeeze=c.squeeze,
            status=False, angle=c.angle, old=not c.foreign)

    ref = data[:, :, :, :, bands][..., bands]

    if c.select:
        ref = ref[qs][:, reps]

    if c.squeeze and len(bands) == 1:
        ref = ref[..., 0, 0]

    close(got, ref, 'coupling', tol=0, rtol=1e-12)

    return data.size > 1


@P.sub('patterns', quick=720, seed=seeds, nq=sizes(1, 4, 12),
    nrep=sizes(1, 6, 12), select=st.booleans())
def patterns(c):
    g = rng(c.seed)
    u = g.uniform(-1, 1, (c.nq, c.nrep, c.nrep))

    with Scratch() as path:
        for iq in range(c.nq):
            with open(path('patterns.%d.xml' % (iq + 1)), 'w') as f:
                f.write('<?xml version="1.0"?>\n<Root>\n  <IRREPS_INFO>\n'
                    '    <QPOINT_NUMBER type="integer" size="1">\n         %d'
                    '\n    </QPOINT_NUMBER>\n' % (iq + 1))
                f.write('    <NUMBER_IRR_REP type="integer" size="1">\n %9d\n'
                    '    </NUMBER_IRR_REP>\n' % c.nrep)

                for r in range(c.nrep):
                    f.write('    <REPRESENTION.%d>\n      <NUMBER_OF_'
                        'PERTURBATIONS type="integer" size="1">\n         1\n'
                        '      </NUMBER_OF_PERTURBATIONS>\n'
                        '      <PERTURBATION.1>\n        <DISPLACEMENT_PATTERN'
                        ' type="complex" size="%d">\n' % (r + 1, c.nrep))

                    for x in u[iq, r]:
                        f.write('%23.15E,%23.15E\n' % (x, 0))

                    f.write('        </DISPLACEMENT_PATTERN>\n'
                        '      </PERTURBATION.1>\n    </REPRESENTION.%d>\n'
                        % (r + 1))

                f.write('  </IRREPS_INFO>\n</Root>\n')

        qs = [int(x) for x in g.permutation(c.nq)[:int(g.integers(1, c.nq
            + 1))]] if c.select else c.nq

        got = elphmod.elph.read_patterns(path('patterns.%d.xml'), qs, c.nrep,
            status=False)

    close(got, u[qs] if c.select else u, 'patterns', tol=1e-14)

    return c.nrep > 1


@P.sub('coupling', quick=1200, seed=seeds, nQ=sizes(1, 3, 12),
    nmodes=sizes(1, 3, 12), nk=sizes(1, 3, 5), nbnd=sizes(1, 4, 8),
    bands=sizes(1, 4, 8), offset=st.integers(0, 3), phase=st.booleans(),
    squeeze=st.booleans(), select=st.booleans())
def coupling(c):
    if c.offset + c.bands > c.nbnd:
        return False

    g = rng(c.seed)
    data = gen.cplx(g, (c.nQ, c.nmodes, c.nk, c.nk, c.nbnd, c.nbnd))

    if not c.phase:
        data = data.real

    with Scratch() as path:
        for iq in range(c.nQ):
            rows = ['# k1 k2 k3 jbnd ibnd nu g\n']

            for k1, k2, m, n, nu in np.ndindex(c.nk, c.nk, c.nbnd, c.nbnd,
                    c.nmodes):
                z = data[iq, nu, k1, k2, m, n]
                rows.append('%3d %3d %3d %3d %3d' % (k1 + 1, k2 + 1, n + 1, m
                    + 1, nu + 1) + (' %20.12E %20.12E\n' % (z.real, z.imag)
                    if c.phase else ' %20.12E\n' % z))

            with open(path('g.%d' % (iq + 1)), 'w') as f:
                for n in g.permutation(len(rows)):
                    f.write(rows[n])

        kwargs = dict()

        if c.select:
            Q = 1 + g.permutation(c.nQ)[:int(g.integers(1, c.nQ + 1))]
            kwargs['Q'] = Q
            ref = data[Q - 1]
        else:
            ref = data

        got = elphmod.elph.coupling(path('g.%d'), c.nQ, c.nmodes, c.nk,
            c.bands, offset=c.offset, completion=False, squeeze=c.squeeze,
            phase=c.phase, **kwargs)

    s = slice(c.offset, c.offset + c.bands)
    ref = ref[..., s, s]

    if c.squeeze and c.bands == 1:
        ref = ref[..., 0, 0]

    close(got, ref, 'coupling', tol=1e-11)

    return ref.size > 1


@P.sub('epw', quick=1800, seed=seeds, nq=sizes(1, 4, 12),
    nmodes=sizes(1, 4, 12), nk=sizes(1, 3, 11), nbnd=sizes(1, 3, 11),
    kind=st.sampled_from(['g', 'epf', 'defpot']), shift=st.booleans(),
    squeeze=st.booleans(), select=st.booleans(), extra=st.booleans())
def epw(c):
    """Coupling printed by EPW."""

    g = rng(c.seed)
    qs = [(q1, q2) for q1 in range(c.nq) for q2 in range(c.nq)]

    if c.select:
        qs = [qs[i] for i in g.permutation(len(qs))[:int(g.integers(1,
            len(qs) + 1))]]

    w = np.round(g.uniform(0, 99, (len(qs), c.nmodes)), 6)
    x = np.round(g.uniform(0, 99, (len(qs), c.nmodes, c.nk, c.nk, c.nbnd,
        c.nbnd)), 6)
    y = np.round(g.uniform(-99, 99, x.shape), 6)
    L = round(float(g.uniform(1, 99)), 6)

    ks = [(k1, k2) for k1 in range(c.nk) for k2 in range(c.nk)]

    out = '     EPW starts\n\n     L  %12.6f Bohr\n\n' % L if c.extra else '\n'

    def coords(x, n):
        x = np.array(x) / n
        if c.shift:
            x = x + g.integers(-1, 2, 2)
        return '%12.7f%12.7f%12.7f' % (*x, 0.0)

    order = [qs[i] for i in g.permutation(len(qs))]

    if c.extra and c.nq < 4: # not on mesh
        order.insert(int(g.integers(len(order) + 1)), (0.4999, 0.1))

    for i, q in enumerate(order, 1):
        iq = qs.index(q) if q in qs else None

        out += '     Electron-phonon vertex |g| (meV)\n\n'
        out += '     iq = %7d coord.: %s\n' % (i, coords(q, c.nq))

        for j, n in enumerate(g.permutation(len(ks)), 1):
            out += '     ik = %7d coord.: %s\n' % (j, coords(ks[n], c.nk))
            out += ' ibnd     jbnd     imode   enk[eV]    enk+q[eV]  ' \
                'omega(q)[meV]   |g|[meV]\n'
            out += ' ' + '-' * 78 + '\n'

            for jb in range(c.nbnd):
                for ib in range(c.nbnd):
                    for nu in range(c.nmodes):
                        if iq is None:
                            last = 7.0, 7.0
                        else:
                            index = iq, nu, *ks[n], ib, jb
                            last = (x[index], y[index]) if c.kind == 'epf' \
                                else (w[iq, nu], x[index])
                        out += '%9d%9d%9d%12.4f%12.4f%20.10f%20.10E\n' % (ib
                            + 1, jb + 1, nu + 1, 1.0, 2.0, *last)

            out += ' ' + '-' * 78 + '\n\n'

    with Scratch() as path:
        with open(path('out'), 'w') as f:
            f.write(out)

        got = elphmod.elph.read_EPW_output(path('out'), qs, c.nq, c.nmodes,
            c.nk, bands=c.nbnd, squeeze=c.squeeze, epf=c.kind == 'epf',
            defpot=c.kind == 'defpot')

        close(elphmod.elph.read_L(path('out')) if c.extra else 0,
            L if c.extra else 0, 'L')

        if not c.extra:
            check(elphmod.elph.read_L(path('out')) is None, 'L')

    if c.kind == 'epf':
        ref = (x + 1j * y) * 1e-3 ** 1.5
    elif c.kind == 'defpot':
        ref = x * np.sqrt(2 * w[:, :, np.newaxis, np.newaxis, np.newaxis,
            np.newaxis]) * 1e-3 ** 1.5
    else:
        ref = x * 1e-3

    if c.squeeze and c.nbnd == 1:
        ref = ref[..., 0, 0]

    close(got, ref, 'coupling', tol=0, rtol=1e-9)

    return x.size > 1


@P.sub('prtgkk', quick=720, seed=seeds, nq=sizes(1, 4, 12),
    nmodes=sizes(1, 4, 12), nk=sizes(1, 4, 12), nbnd=sizes(1, 3, 12))
def prtgkk(c):
    g = rng(c.seed)
    w = np.round(g.uniform(0, 99, (c.nq, c.nmodes)), 6)
    x = np.round(g.uniform(0, 99, (c.nq, c.nmodes, c.nk, c.nbnd, c.nbnd)), 6)

    with Scratch() as path:
        with open(path('out'), 'w') as f:
            for iq in range(c.nq):
                f.write('\n     iq = %7d coord.: %12.7f%12.7f%12.7f\n' % (iq
                    + 1, 0, 0, 0))

                for ik in range(c.nk):
                    f.write('     ik = %7d coord.: %12.7f%12.7f%12.7f\n' % (ik
                        + 1, 0, 0, 0))
                    f.write(' ibnd     jbnd ...\n ---\n')

                    for j in range(c.nbnd):
                        for i in range(c.nbnd):
                            for nu in range(c.nmodes):
                                f.write('%9d%9d%9d%12.4f%12.4f%20.10f%20.10E\n'
                                    % (i + 1, j + 1, nu + 1, 0, 0, w[iq, nu],
                                    x[iq, nu, ik, i, j]))

                    f.write(' ---\n\n')

        w2, g2 = elphmod.elph.read_prtgkk(path('out'), c.nq, c.nmodes, c.nk,
            c.nbnd)

    close(w2, w, 'frequencies', tol=1e-9)
    close(g2, x, 'coupling', tol=1e-9)

    return x.size > 1


# --------------------------------------------------------------------------
# phonons

@P.sub('freq', quick=600, seed=seeds, nat=st.integers(1, 3),
    nq=st.sampled_from([[1, 1, 1], [2, 1, 1], [2, 2, 1], [3, 1, 1]]),
    lattice=gen.lattices())
def freq(c):
    """Frequencies from dynamical matrices."""

    g = rng(c.seed)
    x = crystal(c, g, c.nat, False)
    kind, celldm, at, tau, names, species, masses = x
    nq = np.array(c.nq)
    phid = real_space(g, c.nat, nq)
    phid = phid * 0.1
    bg = np.linalg.inv(at / celldm[0])
    m = np.sqrt(np.repeat([masses[X] for X in names], 3))

    with Scratch() as path:
        qs = []
        ref = []

        for i, n in enumerate(np.ndindex(*nq), 1):
            D = dynmat(phid, 2 * np.pi * np.array(n) / nq)
            q = bg.dot(np.array(n) / nq)
            write_dyn(path('dyn%d' % i), x, [q], [D])
            qs.append(q)
            w2 = np.linalg.eigvalsh(D / np.outer(m, m))
            ref.append(np.sign(w2) * np.sqrt(abs(w2)) * Ry / cmm1)

        with open(path('dyn0'), 'w') as f:
            f.write('%4d%4d%4d\n%4d\n' % (*nq, len(qs)))
            for q in qs:
                f.write('%20.15E%25.15E%25.15E\n' % tuple(q))

        elphmod.ph.fildyn_freq(path('dyn'))
        k, _, w = elphmod.el.read_bands(path('dyn.freq'))

        # conversion to input of EPW:

        os.makedirs(path('work/_ph0/px.phsave'))

        def touch(name, text):
            os.makedirs(os.path.dirname(path(name)), exist_ok=True)
            with open(path(name), 'w') as f:
                f.write(text)

        touch('work/_ph0/px.phsave/patterns.1.xml', 'patterns')

        paw = bool(g.integers(2))

        for i in range(1, len(qs) + 1):
            folder = 'work/_ph0/' + ('px.q_%d/' % i if i > 1 else '')
            touch(folder + 'px.dvscf1', 'dvscf %d' % i)
            if paw:
                touch(folder + 'px.dvscf_paw1', 'paw %d' % i)

        for key in 'fildyn', 'outdir', 'dvscf_dir':
            os.environ.pop(key, None)

        elphmod.elph.ph2epw(path('dyn'), path('work'), path('save'))

        def content(name):
            with open(path(name)) as f:
                return f.read()

        expected = ['px.phsave'] + ['px.dyn_q%d' % i for i in range(1,
            len(qs) + 1)] + ['px.dvscf_q%d' % i for i in range(1,
            len(qs) + 1)] + ['px.dvscf_paw_q%d' % i for i in range(1,
            len(qs) + 1)] * paw

        equal(sorted(os.listdir(path('save'))), sorted(expected), 'files')
        equal(os.listdir(path('save/px.phsave')), ['patterns.1.xml'],
            'patterns')

        for i in range(1, len(qs) + 1):
            equal(content('save/px.dyn_q%d' % i), content('dyn%d' % i),
                'dynamical matrix')
            equal(content('save/px.dvscf_q%d' % i), 'dvscf %d' % i, 'dvscf')
            if paw:
                equal(content('save/px.dvscf_paw_q%d' % i), 'paw %d' % i,
                    'dvscf_paw')

    close(k, np.array(qs), 'q points', tol=1e-6, rtol=1e-6)

    # compare squares (root amplifies rounding of vanishing modes):
    w = w.T
    ref = np.array(ref)
    scale = max(1.0, abs(ref).max())
    close(w * abs(w) / scale, ref * abs(ref) / scale, 'frequencies', tol=1e-2)

    return True
