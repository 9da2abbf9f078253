"""S19: Model files round-trip."""

import os
import shutil
import tempfile

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, check, close, equal, rng, seeds, sizes, st,
    ints,
    raises)

P = Property('S19',
    'Random models (sizes, lattice vectors, degeneracies, masses, species, '
    'dielectric data) in every supported file format, written by independent '
    'reference writers or by the package itself, with all reading options. '
    'Non-trivial: more than one lattice vector, orbital or atom.',
    ['Numbers carry the digits that the producing codes write.',
        'The atoms of a species have the same mass.'])

uRy = 1822.888486217313 / 2
Ry = 13.605693122994


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vp_s19_')
        return lambda name: os.path.join(self.path, name)

    def __exit__(self, *args):
        shutil.rmtree(self.path)


def points(g, n=3):
    return g.uniform(-np.pi, np.pi, (n, 3))


# --------------------------------------------------------------------------
# electrons

def fourier(R, data, k):
    return np.einsum('R,R...->...', np.exp(1j * np.dot(R, k)), data)


@P.sub('hrdat', quick=2400, seed=seeds, size=sizes(1, 4, 11),
    nR=sizes(1, 12, 50), rydberg=st.booleans(), again=st.booleans(),
    suffix=st.booleans(), scale=st.sampled_from([1e-3, 1.0, 50.0]),
    supercell=st.booleans())
def hrdat(c):
    g = rng(c.seed)
    el = gen.el_model(g, c.size, c.nR, rydberg=c.rydberg, box=3)
    el.data *= c.scale

    if c.supercell:
        el = el.supercell(1, 2)

    old = el.data.copy(), el.R.copy()

    with Scratch() as path:
        el.to_hrdat(path('x'))

        equal(el.data, old[0], 'data modified')
        equal(el.R, old[1], 'lattice vectors modified')

        new = elphmod.el.Model(path('x' + '_hr.dat' * c.suffix),
            rydberg=c.again)

    factor = 1.0

    if c.rydberg:
        factor *= Ry
    if c.again:
        factor /= Ry

    equal(new.size, el.size, 'size')
    equal(new.rydberg, c.again, 'unit')
    equal(sorted(map(tuple, new.R.tolist())), sorted(map(tuple,
        el.R.tolist())), 'lattice vectors')

    for k in points(g):
        close(new.H(*k), el.H(*k) * factor, 'Hamiltonian',
            tol=2e-6 * len(el.R) * max(1.0, factor) , rtol=1e-8)

    for R in el.R[:4]:
        close(new.t(*R), el.t(*R) * factor, 'hopping', tol=2e-6, rtol=1e-8)

    # matrices with degeneracies, possibly for fewer dimensions

    dim = int(g.integers(1, 4))
    R = np.unique(el.R[:, :dim], axis=0)
    R = R[g.permutation(len(R))]
    data = gen.cplx(g, (len(R), el.size, el.size))
    ndegen = g.integers(1, 13, len(R))
    old = R.copy(), data.copy(), ndegen.copy()

    with Scratch() as path:
        elphmod.el.write_hrdat(path('x'), R, data,
            ndegen if c.again else ndegen.tolist())

        for x, y in zip(old, (R, data, ndegen)):
            equal(y, x, 'argument modified')

        for divide in True, False:
            cells, const = elphmod.el.read_hrdat(path('x'),
                divide_ndegen=divide)
            const = dict(zip(map(tuple, cells.tolist()), const))

            equal(len(const), len(R), 'number of lattice vectors')

            for r, t, d in zip(R.tolist(), data, ndegen):
                close(const[tuple(r + [0] * (3 - dim))],
                    t / d if divide else t, 'matrix with degeneracy',
                    tol=1e-6, rtol=0)

        # format of degeneracies according to Wannier90

        with open(path('x_hr.dat')) as lines:
            lines = lines.read().split('\n')

        for n in range(0, len(R), 15):
            equal(len(lines[3 + n // 15].split()), min(15, len(R) - n),
                'number of degeneracies per line')
            equal(len(lines[3 + n // 15]), 5 * min(15, len(R) - n),
                'width of degeneracies')

    return len(el.R) > 1 or el.size > 1


def write_wannier(name, R, data, ndegen, g, tb=False, a=None, wrap=15,
        shuffle=False, digits=6):
    nw = data.shape[1]

    with open(name, 'w') as f:
        f.write(' written on  1Jan2020 at 12:00:00 \n')

        if tb:
            for x in a:
                f.write('%24.16E%24.16E%24.16E\n' % tuple(x))

        f.write('%12d\n%12d\n' % (nw, len(R)))

        for i in range(0, len(R), wrap):
            f.write(''.join('%5d' % n for n in ndegen[i:i + wrap]) + '\n')

        for n in range(len(R)):
            if tb:
                f.write('\n%5d%5d%5d\n' % tuple(R[n]))

            for i in range(nw):
                for j in range(nw):
                    z = data[n, j, i]
                    if tb:
                        f.write('%5d%5d   %15.8E %15.8E\n' % (j + 1, i + 1,
                            z.real, z.imag))
                    else:
                        f.write('%5d%5d%5d%5d%5d%12.6f%12.6f\n' % (*R[n],
                            j + 1, i + 1, z.real, z.imag))

        if tb: # position operator
            for n in range(len(R)):
                f.write('\n%5d%5d%5d\n' % tuple(R[n]))

                for i in range(nw):
                    for j in range(nw):
                        f.write('%5d%5d  ' % (j + 1, i + 1) + ' %15.8E' * 6
                            % tuple(g.uniform(-1, 1, 6)) + '\n')


@P.sub('wannier90', quick=3000, seed=seeds, size=sizes(1, 3, 11),
    nR=sizes(1, 20, 50), tb=st.booleans(), wsvec=st.booleans(),
    divide=st.booleans(), rydberg=st.booleans())
def wannier90(c):
    """Files written by Wannier90."""

    g = rng(c.seed)
    R = gen.vectors(g, c.nR, box=3)
    data = np.round(gen.cplx(g, (len(R), c.size, c.size)), 6)
    ndegen = g.integers(1, 7, len(R))
    a = g.uniform(-1, 1, (3, 3))

    supvecs = {}

    for n in range(len(R)):
        for i in range(c.size):
            for j in range(c.size):
                supvecs[n, i, j] = gen.vectors(g, int(g.integers(1, 4)),
                    box=1, origin=False) * [3, 3, 2]

    with Scratch() as path:
        write_wannier(path('x_tb.dat' if c.tb else 'x_hr.dat'), R, data,
            ndegen, g, tb=c.tb, a=a)

        if c.wsvec:
            with open(path('x_wsvec.dat'), 'w') as f:
                f.write('## written on  1Jan2020 at 12:00:00  with '
                    'use_ws_distance=.true.\n')

                for n in range(len(R)):
                    for i in range(c.size):
                        for j in range(c.size):
                            T = supvecs[n, i, j]
                            f.write('%5d%5d%5d%5d%5d\n' % (*R[n], i + 1,
                                j + 1))
                            f.write('%5d\n' % len(T))

                            for t in T:
                                f.write('%5d%5d%5d\n' % tuple(t))

        el = elphmod.el.Model(path('x'), divide_ndegen=c.divide,
            rydberg=c.rydberg)

    equal(el.size, c.size, 'size')
    equal(el.divide_ndegen, c.divide, 'option')
    equal(el.rydberg, c.rydberg, 'option')
    equal(len(set(map(tuple, el.R.tolist()))), len(el.R), 'unique vectors')

    for k in points(g):
        H = np.zeros((c.size, c.size), dtype=complex)

        for n in range(len(R)):
            t = data[n] / ndegen[n] if c.divide else data[n]

            for i in range(c.size):
                for j in range(c.size):
                    if c.wsvec and c.divide:
                        for T in supvecs[n, i, j]:
                            H[i, j] += (t[i, j] / len(supvecs[n, i, j])
                                * np.exp(1j * np.dot(R[n] + T, k)))
                    else:
                        H[i, j] += t[i, j] * np.exp(1j * np.dot(R[n], k))

        if c.rydberg:
            H /= Ry

        close(el.H(*k), H, 'Hamiltonian', tol=1e-6)

    return len(R) > 1 or c.size > 1


# --------------------------------------------------------------------------
# RESPACK format (hopping and Coulomb)

def write_respack(name, R, data, header=3, digits=10):
    with open(name, 'w') as f:
        for i in range(3):
            f.write('# header %d\n' % i)

        for n in range(len(R)):
            f.write('%12d%12d%12d\n' % tuple(R[n]))

            for i in range(data.shape[1]):
                for j in range(data.shape[2]):
                    f.write('%5d%4d%20.10f%20.10f\n' % (i + 1, j + 1,
                        data[n, i, j].real, data[n, i, j].imag))

            f.write('\n')


def ws_model(phi, a, r, sgn):
    """H(k) on mesh from real-space data on mesh."""

    return elphmod.bravais.short_range_model(phi, a, r, sgn=sgn)


@P.sub('respack', quick=2400, seed=seeds, size=sizes(1, 3, 6),
    nq=st.tuples(*[st.integers(1, 3)] * 3), kind=st.sampled_from(['W', 'h',
    'roundtrip', 'direct']), rydberg=st.booleans(), lattice=gen.lattices(),
    short=st.booleans())
def respack(c):
    g = rng(c.seed)
    nq = np.array(c.nq)
    a = np.array(c.lattice)
    r = g.uniform(-0.3, 0.3, (c.size, 3)).dot(a)

    with Scratch() as path:
        if c.kind in ('direct', 'roundtrip'):
            elel = gen.elel_model(g, c.size, int(g.integers(1, 9)))
            elel.data *= 10

            if c.kind == 'roundtrip':
                elel.to_Wmat(path('dat.Wmat'))
            else:
                write_respack(path('dat.Wmat'), elel.R, elel.data)

            new = elphmod.elel.Model(Wmat=path('dat.Wmat'))

            equal(new.size, elel.size, 'size')
            equal(new.R, elel.R, 'lattice vectors')
            close(new.data, elel.data, 'data', tol=1e-9)

            for q in points(g):
                close(new.W(*q), elel.W(*q), 'interaction', tol=1e-8)

            return len(elel.R) > 1

        # data on mesh, lattice vectors around origin:

        grid = np.array(list(np.ndindex(*nq)))
        R = grid - (nq - 1) // 2
        R = R[np.lexsort(R.T[::-1])]
        data = np.round(gen.cplx(g, (len(R), c.size, c.size)), 9)

        if c.kind == 'W':
            write_respack(path('dat.Wmat'), R, data)

            arg = [int(x) for x in nq]

            if c.short:
                if nq[2] != 1:
                    return False
                if nq[0] == nq[1]:
                    arg = int(nq[0])
                else:
                    arg = arg[:2]

            if g.integers(2):
                new = elphmod.elel.Model(Wmat=path('dat.Wmat'), nq=arg, a=a,
                    r=r)
            else:
                new = elphmod.elel.Model(Wmat=path('dat.Wmat'), nq=arg)

            unit = 1.0
            at = new.W
        else:
            write_respack(path('dat.h_mat_r'), R, data)

            options = dict(N=[int(x) for x in nq], a=a, r=r)

            if np.all(nq % 2 == 0) and g.integers(2):
                del options['N'] # derived from last lattice vector

            if g.integers(3) == 0:
                del options[str(g.choice(['a', 'r']))]

            new = elphmod.el.Model(path('dat.h_mat_r'), rydberg=c.rydberg,
                **options)

            unit = 1 / Ry if c.rydberg else 1.0
            equal(new.rydberg, c.rydberg, 'unit')
            at = new.H

    equal(new.size, c.size, 'size')

    for m in grid:
        k = 2 * np.pi * m / nq
        close(at(*k), fourier(R, data, k) * unit, 'matrix on mesh', tol=1e-7)

    return len(R) > 1 or c.size > 1


# --------------------------------------------------------------------------
# Coulomb interaction from VASP etc.

@P.sub('coulomb', quick=1440, seed=seeds, no=st.integers(1, 2),
    nq=st.tuples(*[st.integers(1, 3)] * 3), dd=st.booleans(),
    model=st.booleans(), other=st.booleans(), angle=st.sampled_from([120,
    90, 60]), junk=st.booleans())
def coulomb(c):
    g = rng(c.seed)
    no = c.no
    nq = np.array(c.nq)

    def write(name):
        U = gen.cplx(g, (*nq, no, no, no, no))

        with open(name, 'w') as f:
            if c.junk:
                f.write('# header\n\n')

            rows = [(q, x) for q in np.ndindex(*nq)
                for x in np.ndindex(no, no, no, no)]

            for n in g.permutation(len(rows)):
                q, (i, j, k, l) = rows[n]
                shift = g.integers(-1, 2, 3)
                f.write('%14.9f%14.9f%14.9f %3d %3d %3d %3d %20.14f %20.14f\n'
                    % (*(np.array(q) / nq + shift), i + 1, j + 1, k + 1, l + 1,
                    U[q][i, j, k, l].real, U[q][i, j, k, l].imag))

        return U

    with Scratch() as path:
        U = write(path('U'))
        V = write(path('V')) if c.other else None
        W = write(path('W')) if c.other else None

        if c.model:
            kwargs = {}

            if c.other:
                kwargs.update(vijkl_full=path('V'), vijkl_redu=path('W'))

            arg = [int(x) for x in nq]

            if nq[2] == 1 and nq[0] == nq[1]:
                arg = int(nq[0])

            new = elphmod.elel.Model(uijkl=path('U'), nq=arg, no=no,
                angle=c.angle, **kwargs)
        else:
            new = elphmod.elel.read_orbital_Coulomb_interaction(path('U'),
                [int(x) for x in nq], no, dd=c.dd)

        # local interaction:

        L = gen.cplx(g, (no,) * 4)

        with open(path('L'), 'w') as f:
            if c.junk:
                f.write(' header of file\n\n')

            for x in np.ndindex(*L.shape):
                f.write('%5d%5d%5d%5d%22.14f%22.14f\n' % (*(np.array(x) + 1),
                    L[x].real, L[x].imag))

        local = elphmod.elel.read_local_Coulomb_tensor(path('L'), no, dd=c.dd)

    if c.dd:
        close(local, np.einsum('iikk->ik', L), 'local interaction', tol=1e-12)
    else:
        close(local, L, 'local interaction', tol=1e-12)

    for q in np.ndindex(*nq):
        if c.model:
            ref = U[q] + V[q] - W[q] if c.other else U[q]
            close(new.W(*(2 * np.pi * np.array(q) / nq)), np.einsum(
                'iikk->ik', ref), 'interaction', tol=1e-10)
        elif c.dd:
            close(new[q], np.einsum('iikk->ik', U[q]), 'interaction',
                tol=1e-12)
        else:
            close(new[q], np.einsum('ijkl->jilk', U[q]), 'interaction',
                tol=1e-12)

    return no > 1


@P.sub('band_coulomb', quick=480, seed=seeds, nQ=st.integers(1, 3),
    nk=st.integers(1, 3), binary=st.booleans(), share=st.booleans(),
    suffix=st.booleans())
def band_coulomb(c):
    g = rng(c.seed)
    U = 10 * gen.cplx(g, (c.nQ,) + (c.nk,) * 4)

    with Scratch() as path:
        name = path('U.npy' if c.binary and c.suffix else 'U')

        elphmod.elel.write_band_Coulomb_interaction(name, U, binary=c.binary)

        V = elphmod.elel.read_band_Coulomb_interaction(name, c.nQ, c.nk,
            binary=c.binary, share=c.share)

        close(V, U, 'interaction', tol=1e-15 if c.binary else 1e-9,
            rtol=1e-14)

    return c.nk > 1


# --------------------------------------------------------------------------
# phonons

LABELS = ['H', 'Ta', 'S', 'Se1', 'Se2', 'C']


def crystal(c, g, nat, ibrav=False):
    """Lattice vectors, header, and atoms."""

    if ibrav:
        kind = int(g.choice([1, 2, 3, 4, 6, 8, 14]))
        cos = g.uniform(-0.2, 0.2, 3)
        celldm = np.round([g.uniform(4, 8), g.uniform(0.8, 1.4),
            g.uniform(0.8, 1.4), *cos], 7)
        use = {1: 1, 2: 1, 3: 1, 4: [0, 2], 6: [0, 2], 8: [0, 1, 2],
            14: [0, 1, 2, 3, 4, 5]}[kind]
        keep = np.zeros(6)
        if use == 1:
            use = [0]
        keep[use] = celldm[use]
        celldm = keep
        x, y, z = celldm[:3]

        if kind == 1:
            at = np.eye(3) * x
        elif kind == 2:
            at = x / 2 * np.array([[-1, 0, 1], [0, 1, 1], [-1, 1, 0]])
        elif kind == 3:
            at = x / 2 * np.array([[1, 1, 1], [-1, 1, 1], [-1, -1, 1]])
        elif kind == 4:
            at = x * np.array([[1, 0, 0], [-0.5, np.sqrt(0.75), 0],
                [0, 0, z]])
        elif kind == 6:
            at = np.diag([x, x, x * z])
        elif kind == 8:
            at = np.diag([x, x * y, x * z])
        else:
            bc, ac, ab = celldm[3:]
            s = np.sqrt(1 - ab ** 2)
            at = x * np.array([[1, 0, 0], [y * ab, y * s, 0],
                [z * ac, z * (bc - ac * ab) / s, z * np.sqrt(1 + 2 * bc * ac
                * ab - bc ** 2 - ac ** 2 - ab ** 2) / s]])
    else:
        kind = 0
        at = np.array(c.lattice)
        celldm = np.array([np.round(np.linalg.norm(at[0]), 7), 0, 0, 0, 0, 0])
        at = np.round(at / celldm[0], 9) * celldm[0]

    tau = np.round(g.uniform(-0.2, 0.9, (nat, 3)).dot(at) / celldm[0], 10) \
        * celldm[0]

    names = [LABELS[i] for i in g.integers(0, len(LABELS), nat)]
    masses = dict(zip(LABELS, np.round(g.uniform(1e3, 2e5, len(LABELS)), 6)))
    species = list(dict.fromkeys(names))

    # order of species is independent of order of atoms:

    species = [species[i] for i in g.permutation(len(species))]

    return kind, celldm, at, tau, names, species, masses


def header(f, x, dyn):
    kind, celldm, at, tau, names, species, masses = x

    if dyn:
        f.write('Dynamical matrix file\n')
        f.write('some title with 3 numbers 1 2\n' if dyn == 'title' else '\n')

    f.write('%3d%5d%4d' % (len(species), len(names), kind))
    f.write(''.join('%11.7f' % y for y in celldm) + '\n')

    if not kind:
        if dyn:
            f.write('Basis vectors\n')
        for y in at / celldm[0]:
            f.write('  %15.9f%15.9f%15.9f\n' % tuple(y))

    for n, X in enumerate(species, 1):
        f.write("%12d  '%-3s'  %18.10f\n" % (n, X, masses[X]))

    for n, (X, y) in enumerate(zip(names, tau / celldm[0]), 1):
        f.write('%5d%5d%18.10f%18.10f%18.10f\n' % (n, species.index(X) + 1,
            *y))


def polar(g, nat):
    A = g.uniform(-0.3, 0.3, (3, 3))
    eps = np.round(np.eye(3) * 3 + (A + A.T) / 2, 8)
    Z = g.uniform(-2, 2, (nat, 3, 3))
    Z -= Z.mean(axis=0)

    return eps, np.round(Z, 7)


def real_space(g, nat, nq):
    """Force constants phid[na, nb, m1, m2, m3, x, y] with index symmetry."""

    phi = g.standard_normal((*nq, nat, 3, nat, 3))
    m = np.array(list(np.ndindex(*nq)))
    new = np.empty_like(phi)

    for i in m:
        new[tuple(i)] = (phi[tuple(i)] + phi[tuple(-i % nq)].transpose(2, 3, 0,
            1)) / 2

    return np.round(new.transpose(3, 5, 0, 1, 2, 4, 6), 11)


def dynmat(phid, q):
    """Conventional dynamical matrix, q in crystal coordinates (2 pi)."""

    nat = len(phid)
    nq = phid.shape[2:5]
    D = np.zeros((3 * nat, 3 * nat), dtype=complex)

    for m in np.ndindex(*nq):
        D += (phid[:, :, m[0], m[1], m[2]].transpose(0, 2, 1, 3).reshape(
            D.shape) * np.exp(-1j * np.dot(q, m)))

    return D


def write_fc(name, x, phid, alpha=None, eps=None, Z=None):
    nat = len(x[4])

    with open(name, 'w') as f:
        header(f, x, False)

        if eps is None:
            f.write(' F\n')
        else:
            f.write(' T' + ('  %.6f' % alpha if alpha is not None else '')
                + '\n')

            for row in eps:
                f.write('%24.12f%24.12f%24.12f\n' % tuple(row))

            for na in range(nat):
                f.write('%5d\n' % (na + 1))
                for row in Z[na]:
                    f.write('%15.7f%15.7f%15.7f\n' % tuple(row))

        n1, n2, n3 = phid.shape[2:5]
        f.write('%4d%4d%4d\n' % (n1, n2, n3))

        for j1 in range(3):
            for j2 in range(3):
                for na in range(nat):
                    for nb in range(nat):
                        f.write('%4d%4d%4d%4d\n' % (j1 + 1, j2 + 1, na + 1,
                            nb + 1))

                        for m3 in range(n3):
                            for m2 in range(n2):
                                for m1 in range(n1):
                                    f.write('%4d%4d%4d  %18.11E\n' % (m1 + 1,
                                        m2 + 1, m3 + 1, phid[na, nb, m1, m2,
                                        m3, j1, j2]))


def xml_matrix(M):
    """Fortran writes arrays in column-major order."""

    return '\n'.join(' '.join('%24.15E' % y for y in col) for col in
        np.asarray(M).T)


def xml_header(x, nq, eps, Z):
    kind, celldm, at, tau, names, species, masses = x
    out = ['<?xml version="1.0" encoding="UTF-8"?>', '<Root>',
        '<GEOMETRY_INFO>',
        '<NUMBER_OF_TYPES>%d</NUMBER_OF_TYPES>' % len(species),
        '<NUMBER_OF_ATOMS>%d</NUMBER_OF_ATOMS>' % len(names),
        '<BRAVAIS_LATTICE_INDEX>%d</BRAVAIS_LATTICE_INDEX>' % kind,
        '<SPIN_COMPONENTS>1</SPIN_COMPONENTS>',
        '<CELL_DIMENSIONS>\n%s\n</CELL_DIMENSIONS>' % ' '.join('%.15E' % y
            for y in celldm),
        '<AT>\n%s\n</AT>' % xml_matrix((at / celldm[0]).T)]

    for n, X in enumerate(species, 1):
        text = X if nq is None else '\n%s\n' % X
        out.append('<TYPE_NAME.%d>%s</TYPE_NAME.%d>' % (n, text, n))
        out.append('<MASS.%d>%.15E</MASS.%d>' % (n, masses[X] / uRy, n))

    for n, (X, y) in enumerate(zip(names, tau / celldm[0]), 1):
        out.append('<ATOM.%d SPECIES="%s" INDEX="%d" TAU="%.15E %.15E %.15E"/>'
            % (n, X, species.index(X) + 1, *y))

    out.append('<NUMBER_OF_Q>%d</NUMBER_OF_Q>' % (nq or 1))
    out.append('</GEOMETRY_INFO>')
    out.append('<DIELECTRIC_PROPERTIES epsil="%s" zstar="%s">' % ((('false',
        'true')[eps is not None],) * 2))

    if eps is not None:
        out.append('<EPSILON>\n%s\n</EPSILON>' % xml_matrix(eps))
        out.append('<ZSTAR>')
        for n, z in enumerate(Z, 1):
            out.append('<Z_AT_.%d>\n%s\n</Z_AT_.%d>' % (n, xml_matrix(z), n))
        out.append('</ZSTAR>')

    out.append('</DIELECTRIC_PROPERTIES>')

    return out


def write_fc_xml(name, x, phid, alpha=None, eps=None, Z=None, ending='Root'):
    out = xml_header(x, None, eps, Z)
    nat = len(phid)

    out.append('<INTERATOMIC_FORCE_CONSTANTS>')

    if alpha is not None:
        out.append('<alpha_ewald>%.15E</alpha_ewald>' % alpha)

    out.append('<MESH_NQ1_NQ2_NQ3>%d %d %d</MESH_NQ1_NQ2_NQ3>'
        % phid.shape[2:5])

    for na in range(nat):
        for nb in range(nat):
            for m in np.ndindex(*phid.shape[2:5]):
                tag = 's_s1_m1_m2_m3.%d.%d.%d.%d.%d' % (na + 1, nb + 1, m[0]
                    + 1, m[1] + 1, m[2] + 1)
                out.append('<%s>\n<IFC>\n%s\n</IFC>\n</%s>' % (tag, xml_matrix(
                    phid[na, nb, m[0], m[1], m[2]]), tag))

    out.append('</INTERATOMIC_FORCE_CONSTANTS>')

    if ending is not None:
        out.append('</%s>' % ending)

    with open(name, 'w') as f:
        f.write('\n'.join(out) + '\n')


def write_dyn(name, x, qs, Ds, eps=None, Z=None, title=None):
    """Output of ph.x (q in units of 2 pi / alat)."""

    nat = len(x[4])

    with open(name, 'w') as f:
        header(f, x, title or 'dyn')

        for q, D in zip(qs, Ds):
            f.write('\n     Dynamical  Matrix in cartesian axes\n\n')
            f.write('     q = ( %14.9f%14.9f%14.9f ) \n\n' % tuple(q))

            for na in range(nat):
                for nb in range(nat):
                    f.write('%5d%5d\n' % (na + 1, nb + 1))
                    for i in range(3):
                        f.write('  '.join('%12.8f%12.8f' % (z.real, z.imag)
                            for z in D[3 * na + i, 3 * nb:3 * nb + 3]) + '\n')

        if eps is not None:
            f.write('\n     Dielectric Tensor:\n\n')
            for row in eps:
                f.write('%24.12f%24.12f%24.12f\n' % tuple(row))

            f.write('\n     Effective Charges E-U: Z_{alpha}{s,beta}\n\n')
            for na in range(nat):
                f.write('     atom # %5d\n' % (na + 1))
                for row in Z[na]:
                    f.write('%24.12f%24.12f%24.12f\n' % tuple(row))

        f.write('\n     Diagonalizing the dynamical matrix\n\n')
        f.write('     q = ( %14.9f%14.9f%14.9f ) \n\n' % tuple(qs[0]))
        f.write(' ' + '*' * 74 + '\n')

        for n in range(3 * nat):
            f.write('     freq (%5d) = %14.6f [THz] = %14.6f [cm-1]\n' % (n
                + 1, 1.0, 33.0))


def write_dyn_xml(name, x, qs, Ds, eps=None, Z=None, ending='Root'):
    out = xml_header(x, len(qs), eps, Z)
    nat = len(x[4])

    for n, (q, D) in enumerate(zip(qs, Ds), 1):
        out.append('<DYNAMICAL_MAT_.%d>' % n)
        out.append('<Q_POINT>\n%s\n</Q_POINT>' % ' '.join('%.15E' % y
            for y in q))

        for na in range(nat):
            for nb in range(nat):
                block = D[3 * na:3 * na + 3, 3 * nb:3 * nb + 3]
                out.append('<PHI.%d.%d>\n%s\n</PHI.%d.%d>' % (na + 1, nb + 1,
                    '\n'.join('%.15E %.15E' % (z.real, z.imag) for z in
                    block.T.ravel()), na + 1, nb + 1))

        out.append('</DYNAMICAL_MAT_.%d>' % n)

    out.append('<FREQUENCIES_THZ_CMM1>\n</FREQUENCIES_THZ_CMM1>')

    if ending is not None:
        out.append('</%s>' % ending)

    with open(name, 'w') as f:
        f.write('\n'.join(out) + '\n')


def same_crystal(ph, x, tol=1e-7):
    kind, celldm, at, tau, names, species, masses = x

    equal(list(ph.atom_order), names, 'species')
    equal((ph.nat, ph.size), (len(names), 3 * len(names)), 'size')
    close(ph.M, [masses[X] for X in names], 'masses', tol=1e-4, rtol=2e-7)
    close(ph.a, at, 'lattice vectors', tol=tol)
    close(ph.r, tau, 'positions', tol=tol)


endings = st.sampled_from(['Root', 'root', None])


@P.sub('flfrc', quick=250, seed=seeds, nat=sizes(1, 3, 11),
    nq=st.tuples(*[sizes(1, 3, 5)] * 3), lattice=gen.lattices(),
    ibrav=st.booleans(), polar=st.booleans(), alpha=st.booleans(),
    lr=st.booleans(), divide_mass=st.booleans(), divide_ndegen=st.booleans(),
    simple=st.booleans(), zasr=st.booleans(), xml=st.booleans(),
    ending=endings, lr2d=st.sampled_from([None, None, False]),
    quad=st.booleans())
def flfrc(c):
    """Force constants written by q2r.x, and written and read again."""

    g = rng(c.seed)
    nat = c.nat
    nq = np.array(c.nq)

    x = crystal(c, g, nat, c.ibrav)
    kind, celldm, at, tau, names, species, masses = x
    phid = real_space(g, nat, nq)

    eps, Z = polar(g, nat) if c.polar else (None, None)

    if c.zasr and Z is not None:
        Z = np.round(Z + g.uniform(-0.3, 0.3, (3, 3)), 7)

    alpha = (np.round(g.uniform(0.2, 3.0), 4) if c.alpha and c.polar
        else None)

    if not gen.searchable(nq, at, tau, tau):
        return False

    Q = None

    options = dict(lr=c.lr, divide_mass=c.divide_mass,
        divide_ndegen=c.divide_ndegen, apply_asr_simple=c.simple,
        apply_zasr=c.zasr, lr2d=c.lr2d)

    with Scratch() as path:
        name = path('ifc.xml' if c.xml else 'ifc')

        if c.xml:
            write_fc_xml(name, x, phid, alpha, eps, Z, c.ending)
        else:
            write_fc(name, x, phid, alpha, eps, Z)

        if c.quad:
            Q = g.uniform(-3, 3, (nat, 3, 3, 3))
            Q = np.round((Q + Q.swapaxes(2, 3)) / 2, 10)
            write_quadrupoles(path('quadrupole.fmt'), Q, g)
            options['quadrupole_fmt'] = path('quadrupole.fmt')

        ph = elphmod.ph.Model(name, **options)

        same_crystal(ph, x)

        equal(tuple(ph.nq), tuple(c.nq), 'mesh')
        equal(bool(ph.lr), bool(c.lr and c.polar), 'long range')
        equal((ph.divide_mass, ph.divide_ndegen), (c.divide_mass,
            c.divide_ndegen), 'options')
        close(ph.alpha, 1.0 if alpha is None else alpha, 'Ewald parameter')

        two = nq[0] != 1 and nq[1] != 1 and nq[2] == 1 and c.lr2d is None
        equal(bool(ph.lr2d), bool(two), 'dimension')

        if c.quad:
            close(ph.Q, Q, 'quadrupoles', tol=1e-9)

        if c.polar:
            close(ph.eps, eps, 'dielectric tensor', tol=1e-10)

            if c.zasr:
                close(ph.Z, Z - Z.mean(axis=0), 'corrected charges', tol=1e-9)
            else:
                close(ph.Z, Z, 'charges', tol=1e-10)
        else:
            check(ph.eps is None and ph.Z is None, 'dielectric properties')

        phi = phid.copy()

        if c.simple:
            total = phi.sum(axis=(1, 2, 3, 4))
            for na in range(nat):
                phi[na, na, 0, 0, 0] -= total[na]

        m = np.sqrt(np.repeat([masses[X] for X in names], 3))
        mm = np.outer(m, m) if c.divide_mass else 1.0

        if c.divide_ndegen:
            for n in np.ndindex(*nq):
                q = 2 * np.pi * np.array(n) / nq
                D = dynmat(phi, q) / mm

                if ph.lr:
                    D = D + ph.D_lr(*q)

                close(ph.D(*q), D, 'dynamical matrix', tol=1e-6)

        # in-memory interpolation at other points:

        qs = points(g, 2)

        R, data, l = elphmod.bravais.short_range_model(phi, at, tau, sgn=-1,
            divide_ndegen=c.divide_ndegen)

        for q in qs:
            D = fourier(R, data, q) / mm

            if ph.lr:
                D = D + ph.D_lr(*q)

            close(ph.D(*q), D, 'interpolated dynamical matrix', tol=1e-6)

        # write and read again:

        if not c.divide_ndegen:
            return True

        old = ph.data.copy()
        args = [int(y) for y in nq] if g.integers(2) else []
        ph.to_flfrc(path('again'), *args)

        equal(ph.data, old, 'data modified')

        options['apply_asr_simple'] = options['apply_zasr'] = False
        options['divide_mass'] = not c.divide_mass

        new = elphmod.ph.Model(path('again'), **options)

    same_crystal(new, x)
    close(new.alpha, ph.alpha, 'saved Ewald parameter', tol=1e-5)

    factor = mm if c.divide_mass else 1 / np.outer(m, m)

    if not ph.lr:
        for q in qs:
            close(new.D(*q), ph.D(*q) * factor, 'saved model', tol=1e-6,
                rtol=1e-6)
    else:
        close(new.eps, ph.eps, 'dielectric tensor', tol=1e-9)
        close(new.Z, ph.Z, 'charges', tol=1e-6)

        for q in qs:
            close(new.D(*q) - new.D_lr(*q), (ph.D(*q) - ph.D_lr(*q)) * factor,
                'saved model', tol=1e-6, rtol=1e-6)
            close(new.D_lr(*q), ph.D_lr(*q) * factor, 'long-range part',
                tol=1e-5, rtol=1e-5)

    return True


def write_quadrupoles(name, Q, g):
    rows = [(na, i) for na in range(len(Q)) for i in range(3)]

    with open(name, 'w') as f:
        f.write('  atom   dir        Qxx            Qyy            Qzz        '
            '    Qyz            Qxz            Qxy\n')

        for na, i in rows:
            q = Q[na, i]
            f.write('%8d%8d' % (na + 1, i + 1) + '  %16.10f' * 6 % (q[0, 0],
                q[1, 1], q[2, 2], q[1, 2], q[0, 2], q[0, 1]) + '\n')

        f.write('\n' * int(g.integers(0, 2)))


@P.sub('quadrupoles', quick=720, seed=seeds, nat=sizes(1, 12, 30))
def quadrupoles(c):
    g = rng(c.seed)
    Q = g.uniform(-9, 9, (c.nat, 3, 3, 3))
    Q = np.round((Q + Q.swapaxes(2, 3)) / 2, 10)

    with Scratch() as path:
        write_quadrupoles(path('one'), Q, g)
        close(elphmod.ph.read_quadrupole_fmt(path('one')), Q, 'read', tol=1e-9)

        elphmod.ph.write_quadrupole_fmt(path('two'), Q)
        close(elphmod.ph.read_quadrupole_fmt(path('two')), Q, 'round trip',
            tol=1e-9)

    return c.nat > 1


@P.sub('fildyn', quick=670, seed=seeds, nat=st.integers(1, 2),
    nq=st.sampled_from([[1, 1, 1], [2, 1, 1], [2, 2, 1], [1, 3, 1], [2, 2, 2],
    [3, 2, 1], [1, 2, 3]]), lattice=gen.lattices(), ibrav=st.booleans(),
    polar=st.booleans(), lr=st.booleans(), divide_mass=st.booleans(),
    simple=st.booleans(), xml=st.booleans(), ending=endings,
    title=st.booleans(), zero=st.booleans(), ifc=st.booleans())
def fildyn(c):
    """Dynamical matrices written by ph.x."""

    g = rng(c.seed)
    nat = c.nat
    nq = np.array(c.nq)

    x = crystal(c, g, nat, c.ibrav)
    kind, celldm, at, tau, names, species, masses = x
    phid = real_space(g, nat, nq)
    eps, Z = polar(g, nat) if c.polar else (None, None)
    bg = np.linalg.inv(at / celldm[0]) # columns: b / (2 pi / alat)

    if not gen.searchable(nq, at, tau, tau):
        return False

    # random partition of the mesh:

    mesh = [np.array(n) for n in np.ndindex(*nq)]
    order = [0] + list(1 + g.permutation(len(mesh) - 1))
    files = []

    while order:
        n = 1 if not files else int(g.integers(1, 4))
        files.append(order[:n])
        order = order[n:]

    listed = {} # representatives of q points found in files

    def cart(n):
        y = mesh[n] / nq
        if n:
            y = y + g.integers(-1, 2, 3)
        listed[tuple(mesh[n])] = 2 * np.pi * y
        return bg.dot(y)

    with Scratch() as path:
        first = []

        for i, members in enumerate(files, 1):
            qs = [cart(n) for n in members]
            Ds = [dynmat(phid, 2 * np.pi * mesh[n] / nq) for n in members]
            first.append(qs[0])
            data = (eps, Z) if i == 1 else (None, None)

            if c.xml:
                write_dyn_xml(path('dyn%d.xml' % i), x, qs, Ds, *data,
                    ending=c.ending)
            else:
                write_dyn(path('dyn%d' % i), x, qs, Ds, *data,
                    title=['dyn', 'title'][c.title])

        with open(path('dyn0.xml' if c.xml and c.zero else 'dyn0'), 'w') as f:
            f.write('%4d%4d%4d\n%4d\n' % (*nq, len(first)))
            for q in first:
                f.write('%20.15E%25.15E%25.15E\n' % tuple(q))

        found = elphmod.ph.read_q(path('dyn0.xml' if c.xml and c.zero
            else 'dyn0'))

        equal(tuple(found[0]), tuple(c.nq), 'mesh')
        close(np.array(found[1]), np.array(first), 'irreducible points')

        options = dict(lr=c.lr, divide_mass=c.divide_mass, lr2d=False,
            apply_asr_simple=c.simple)

        if c.ifc:
            options['ifc'] = path('ifc')

        ph = elphmod.ph.Model(path('dyn.xml' if c.xml else 'dyn'), **options)

        same_crystal(ph, x)

        equal(tuple(ph.nq), tuple(c.nq), 'mesh')
        equal(bool(ph.lr), bool(c.lr and c.polar), 'long range')

        m = np.sqrt(np.repeat([masses[X] for X in names], 3))
        mm = np.outer(m, m) if c.divide_mass else 1.0

        corr = 0

        for n in mesh:
            q = 2 * np.pi * n / nq
            D = dynmat(phid, q)

            if c.simple:
                if not np.any(n): # acoustic sum rule for short-range part
                    short = D.real * 1.0
                    if ph.lr:
                        short = short - ph.D_lr(*q).real * mm
                    short = short.reshape((nat, 3, nat, 3))
                    corr = np.zeros_like(short)
                    for na in range(nat):
                        corr[na, :, na, :] = short.sum(axis=2)[na]
                    corr = corr.reshape(D.shape)

                D = D - corr

            # rounded points may cross cutoff of long-range terms, the sum of
            # which is only periodic up to the truncation

            tol = 2e-6

            if ph.lr:
                tol = 1e-4 + min(5e-3, 2 * np.max(abs(ph.D_lr(*q)
                    - ph.D_lr(*listed[tuple(n)]))))

            close(ph.D(*q), D / mm, 'dynamical matrix', tol=tol)

        if c.ifc:
            # as done by q2r.x, before any sum-rule correction
            new = elphmod.ph.Model(path('ifc'), lr=c.lr,
                divide_mass=c.divide_mass, lr2d=False,
                apply_asr_simple=c.simple)

            same_crystal(new, x)

            for q in points(g, 2):
                close(new.D(*q), ph.D(*q), 'force-constants file', tol=1e-4
                    if ph.lr else 1e-5, rtol=1e-5)

        # own writer:

        n = files[-1]
        qs = np.array([2 * np.pi * np.dot(np.linalg.inv(at), mesh[i] / nq)
            for i in n])
        Ds = np.array([dynmat(phid, 2 * np.pi * mesh[i] / nq) for i in n])

        elphmod.ph.write_flfrc(path('own'), (qs, Ds), ph.M, ph.a, ph.r,
            ph.atom_order, ph.alpha, ph.eps, ph.Z)

        (q2, D2), M, a, r, X, alpha, eps2, Z2 = elphmod.ph.read_flfrc(
            path('own'))

        # species are numbered consecutively, as other programs expect:

        with open(path('own')) as data:
            numbers = [line.split("'")[0].split() for line in data
                if line.count("'") == 2]

        equal(numbers, [[str(n + 1)] for n in range(len(set(names)))],
            'numbers of species')

    close(q2, qs, 'q points', tol=1e-7)
    close(D2, Ds, 'matrices', tol=1e-7)
    close(M, ph.M, 'masses', tol=1e-6, rtol=1e-9)
    close(a, ph.a, 'lattice', tol=1e-6)
    close(r, ph.r, 'positions', tol=1e-6)
    equal(list(X), names, 'species')

    if c.polar:
        close(eps2, eps, 'dielectric tensor', tol=1e-9)
        close(Z2, Z, 'charges', tol=1e-6)
    else:
        check(eps2 is None and Z2 is None, 'dielectric properties')

    return len(mesh) > 1


@P.sub('write_q', quick=480, seed=seeds, nq=sizes(1, 40, 120),
    n=sizes(1, 9, 12))
def write_q(c):
    g = rng(c.seed)
    q = np.round(g.uniform(-1, 1, (c.n, 2)), 14)

    with Scratch() as path:
        elphmod.ph.write_q(path('dyn0'), q, c.nq)
        nq, new = elphmod.ph.read_q(path('dyn0'))

    equal(tuple(nq), (c.nq, c.nq, 1), 'mesh')
    close(np.array(new), np.hstack([q, np.zeros((c.n, 1))]), 'points',
        tol=1e-13)

    return c.n > 1


# --------------------------------------------------------------------------
# electron-phonon coupling

def degeneracies(g, shape, zeros):
    d = g.integers(1, 5, shape)

    if zeros:
        d[g.random(shape) < 0.2] = 0

    return d


@P.sub('epmatwp', quick=3000, seed=seeds, size=sizes(1, 3, 5),
    nat=sizes(1, 3, 5), nRk=sizes(1, 5, 12), nRg=sizes(1, 5, 12),
    nRq=st.integers(0, 2), fmt=st.sampled_from(['text', 'binary', 'qe68',
    'old']), ws=st.booleans(), zeros=st.booleans(), ndegen=st.booleans(),
    divide_mass=st.booleans(), shared=st.booleans(),
    suffix=st.sampled_from(['same', 'other']), lr=st.sampled_from([False,
    False, True]), ph_mass=st.booleans())
def epmatwp(c):
    """Coupling written by EPW, and written and read again."""

    g = rng(c.seed)
    el = gen.el_model(g, c.size, 2)
    ph = gen.ph_model(g, np.eye(3) * 5, c.nat, 2, lr=c.lr,
        divide_mass=c.ph_mass)

    Rk = gen.vectors(g, c.nRk, box=2)
    Rg = gen.vectors(g, c.nRg, box=2)
    Rq = gen.vectors(g, max(1, c.nRq), box=2)[:c.nRq]

    dims = c.size if c.ws else 1
    dims2 = c.nat if c.ws else 1

    if c.fmt == 'old':
        dims = 1
        dims2 = c.nat

    dk = degeneracies(g, (dims, dims, len(Rk)), c.zeros)
    dq = degeneracies(g, (dims2, dims2, len(Rq)), False)
    dg = degeneracies(g, (dims if c.fmt == 'binary' else 1, dims, dims2,
        len(Rg)), c.zeros)

    data = gen.cplx(g, (len(Rg), ph.size, len(Rk), c.size, c.size))

    with Scratch() as path:
        name = path('wigner.fmt' if c.fmt == 'text' else 'wigner.dat')

        if c.fmt == 'text':
            with open(name, 'w') as f:
                f.write('%6d %6d %6d %6d %6d\n' % (len(Rk), len(Rq), len(Rg),
                    dims, dims2))

                for ir in range(len(Rk)):
                    f.write('%6d %6d %6d %14.6f\n' % (*Rk[ir], 0.5))
                    for iw in range(dims):
                        f.write(' '.join('%6d' % dk[j, iw, ir]
                            for j in range(dims)) + '\n')

                for ir in range(len(Rq)):
                    f.write('%6d %6d %6d %14.6f\n' % (*Rq[ir], 0.5))
                    for na in range(dims2):
                        f.write(' '.join('%6d' % dq[j, na, ir]
                            for j in range(dims2)) + '\n')

                for ir in range(len(Rg)):
                    f.write('%6d %6d %6d %14.6f\n' % (*Rg[ir], 0.5))
                    for iw in range(dims):
                        f.write(' '.join('%6d' % dg[0, iw, na, ir]
                            for na in range(dims2)) + '\n')
        else:
            with open(name, 'wb') as f:
                def put(*args):
                    for x in args:
                        np.asarray(x).astype(np.int32).tofile(f)

                def length(n):
                    g.uniform(0, 1, n).astype(np.float64).tofile(f)

                if c.fmt == 'old':
                    # Fortran arrays: first index is the fastest
                    put(len(Rk), Rk, dk)
                    length(len(Rk))
                    put(len(Rq), Rq, dq)
                    length(len(Rq))
                    put(len(Rg), Rg, dg)
                    length(len(Rg))
                else:
                    put(dims, dims2, len(Rk), Rk, dk, len(Rg), Rg)

                    if c.fmt == 'qe68':
                        put(dg.transpose(2, 3, 0, 1))
                    else:
                        put(dg)

        # Fortran: g(b, a, Rk, x, Rg)

        with open(path('x.epmatwp'), 'wb') as f:
            data.swapaxes(3, 4).tofile(f)

        options = dict(el=el, ph=ph, divide_ndegen=c.ndegen,
            divide_mass=c.divide_mass, shared_memory=c.shared)

        if c.suffix == 'other': # either is accepted
            if name.endswith('.dat'):
                name = name[:-4] + '.fmt'
            else:
                name = name[:-4] + '.dat'

        elph = elphmod.elph.Model(path('x.epmatwp'), name,
            old_ws=c.fmt == 'old', **options)

        def divided(data):
            ref = data.copy()

            for irk in range(len(Rk)):
                for a in range(c.size):
                    for b in range(c.size):
                        d = dk[b % dims, a % dims, irk]
                        ref[:, :, irk, a, b] = (ref[:, :, irk, a, b] / d if d
                            else 0.0)

            for irg in range(len(Rg)):
                for x in range(ph.size):
                    for a in range(c.size):
                        for b in range(c.size):
                            d = dg[b % len(dg), a % dims, x // 3 % dims2, irg]
                            ref[irg, x, :, a, b] = (ref[irg, x, :, a, b] / d
                                if d else 0.0)

            return ref

        ref = divided(data) if c.ndegen else data

        mass = np.sqrt(np.repeat(ph.M, 3))[:, np.newaxis, np.newaxis]

        def direct(q, k):
            G = np.einsum('gxkab,g,k->xab', ref, np.exp(1j * Rg.dot(q)),
                np.exp(1j * Rk.dot(k)))

            if divide_mass:
                G = G / mass

            if c.lr:
                for a in range(c.size):
                    G[:, a, a] += elph.g_lr(*q)

            return G

        # The mass convention of long-range terms is set by the phonon model.

        divide_mass = c.ph_mass if c.lr else c.divide_mass

        pts = points(g, 4).reshape((2, 2, 3))

        for q, k in pts:
            close(elph.g(*q, *k), direct(q, k), 'coupling', tol=1e-9)

        equal(elph.divide_mass, divide_mass, 'mass convention')

        # write and read again:

        if len(dg) > 1 and not c.ndegen:
            return True # cannot be represented by written format

        old = elph.data.copy()
        elph.to_epmatwp(path('y'))
        equal(elph.data, old, 'data modified')

        options['divide_mass'] = not c.divide_mass

        new = elphmod.elph.Model(path('y.epmatwp'), path('y.wigner'),
            **options)

        if not c.ndegen:
            equal(new.dk, dk, 'degeneracies')
            equal(new.dg, dg, 'degeneracies')

            options['divide_ndegen'] = True

            other = elphmod.elph.Model(path('y.epmatwp'), path('y.wigner'),
                **options)

            ref = divided(data)

            if options['divide_mass'] if not c.lr else c.ph_mass:
                ref /= mass[:, np.newaxis]

            close(other.data, ref, 'data divided by degeneracies', tol=1e-12)

    factor = 1.0 if c.lr else 1 / mass if not c.divide_mass else mass

    for q, k in pts:
        close(new.g(*q, *k), elph.g(*q, *k) * factor, 'saved coupling',
            tol=1e-9, rtol=1e-12)

    return len(Rk) > 1 and len(Rg) > 1


@P.sub('elph_roundtrip', quick=960, seed=seeds, size=st.integers(1, 2),
    nat=st.integers(1, 2), N=gen.supercells(max_cells=3), op=st.sampled_from([
    'none', 'supercell', 'standardize', 'symmetrize', 'asr']),
    divide_mass=st.booleans(), shared=st.booleans())
def elph_roundtrip(c):
    """Derived models can be saved and loaded as well."""

    g = rng(c.seed)
    el = gen.el_model(g, c.size, 2)
    ph = gen.ph_model(g, np.eye(3) * 5, c.nat, 2)
    elph = gen.elph_model(g, el, ph, 3, 3, divide_mass=c.divide_mass)

    if c.op == 'supercell':
        elph = elph.supercell(*gen.args(c.N))
    elif c.op == 'standardize':
        elph.standardize(eps=0.1)
    elif c.op == 'symmetrize':
        elph.standardize(symmetrize=True)
    elif c.op == 'asr':
        elph.asr(report=False)

    with Scratch() as path:
        elph.to_epmatwp(path('y'))

        new = elphmod.elph.Model(path('y.epmatwp'), path('y.wigner'),
            el=elph.el, ph=elph.ph, divide_mass=c.divide_mass,
            shared_memory=c.shared)

    equal(new.Rk, elph.Rk, 'electronic lattice vectors')
    equal(new.Rg, elph.Rg, 'phononic lattice vectors')

    for q, k in points(g, 4).reshape((2, 2, 3)):
        close(new.g(*q, *k), elph.g(*q, *k), 'coupling', tol=1e-9)

    return True
