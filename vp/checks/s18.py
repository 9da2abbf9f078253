"""S18: Structures and simulations survive saving and loading."""

import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, Violation, check, close, equal, rng, seeds,
    st, REPO)
from vp.refs import Smearing
from vp.checks.s17 import models, centered

P = Property('S18',
    'Random simulations (1-3 orbitals, 2-4 atoms, dense, sparse, or via '
    'supercell option), displacements, cells, and histories of evaluating, '
    'saving and loading. Non-trivial: finite displacement and at least one '
    'file written and read.',
    ['Atoms of the same species have the same mass.',
        'Parameters of smearing functions that are global to the process '
        '(distance of Fermi levels) are not part of a saved simulation.'])

NAMES = ['Ta', 'S', 'X', 'H', 'Se1', 'Mo_a']
UNIT = 1.0


def system(g, nel=1, nat=2, lr=False, real=False):
    at = np.eye(3) * 5.0 + g.uniform(-1.0, 1.0, (3, 3))

    el, ph, elph = models(g, nel, nat, at=at, lr=lr, real=real)

    names = [NAMES[i] for i in g.integers(0, len(NAMES), nat)]
    masses = dict(zip(NAMES, g.uniform(1e3, 2e5, len(NAMES))))

    ph.atom_order[:] = names
    ph.M = np.array([masses[X] for X in names])

    return el, ph, elph


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vp_s18_')
        return lambda name: os.path.join(self.path, name)

    def __exit__(self, *args):
        shutil.rmtree(self.path)


def frames(path):
    """Independent .xyz parser."""

    with open(path) as data:
        lines = data.read().splitlines()

    found = []

    while lines:
        n = int(lines[0])
        header = lines[1]
        rows = [line.split() for line in lines[2:2 + n]]
        check(len(rows) == n and all(len(row) == 4 for row in rows), 'rows')
        found.append((header, [row[0] for row in rows],
            np.array([row[1:] for row in rows], dtype=float)))
        lines = lines[2 + n:]

    return found


kinds = st.sampled_from(['dense', 'dense', 'mesh', 'sparse', 'option'])


def make(c, g, nat=2):
    sparse = c.kind in ('sparse', 'option')

    el, ph, elph = system(g, c.nel, nat, real=sparse, lr=c.kind == 'dense'
        and g.integers(2))

    f = Smearing(c.name).setup()
    options = dict(kT=float(g.choice([0.1, 0.2, 0.5])), f=f,
        n=c.nel * float(g.choice([0.5, 0.9, 1.3])))

    if c.kind == 'option':
        return elphmod.md.Driver(elph, supercell=(2, 1, 1), nk=(2,), nq=(2,),
            **options)

    if c.kind == 'sparse':
        options['n'] *= 2
        return elphmod.md.Driver(elph.supercell(1, 2, sparse=True), **options)

    if c.kind == 'mesh':
        nk, nq = [((2, 1, 2), (2,)), ((3, 2), (3, 2)), ((1, 2, 3), (1, 2)),
            ((2, 4), (1, 2)), ((5,), ())][g.integers(5)]

        return elphmod.md.Driver(elph, nk=nk, nq=nq or (1,), **options)

    return elphmod.md.Driver(elph, **options)


smearings = st.sampled_from(['fd', 'gauss'])


@P.sub('xyz', quick=410, seed=seeds, nel=st.integers(1, 2), kind=kinds,
    name=smearings, nat=st.integers(2, 4), steps=st.lists(st.tuples(
    st.booleans(), st.sampled_from([0.0, 0.02, 0.5, 30.0])), min_size=1,
    max_size=5))
def xyz(c):
    g = rng(c.seed)
    driver = make(c, g, c.nat)
    ph = driver.elph.ph
    other = make(c, rng(c.seed), c.nat)
    expected = []

    with Scratch() as path:
        for append, amplitude in c.steps:
            driver.u = centered(g, ph.nat, amplitude)
            u = driver.u.copy()
            driver.to_xyz(path('t.xyz'), append=append)
            equal(driver.u, u, 'displacement modified')

            if not append:
                expected = []

            expected.append(u)

            found = frames(path('t.xyz'))

            equal(len(found), len(expected), 'number of frames')

            for (header, names, pos), u in zip(found, expected):
                equal(names, list(ph.atom_order), 'species')
                close(pos, ph.r + u.reshape((-1, 3)), 'positions', tol=1e-9,
                    rtol=1e-12)

                # i-PI: matrix whose columns are the lattice vectors

                m = re.fullmatch(r'# *CELL\{H\}:((?: +\S+){9})', header)
                check(m is not None, 'header: %r' % header)
                h = np.array(m.group(1).split(), dtype=float).reshape((3, 3))
                close(h.T, ph.a, 'cell', tol=1e-8)

            other.from_xyz(path('t.xyz'))
            close(other.u, expected[-1], 'displacement', tol=1e-9, rtol=1e-12)

        E = driver.free_energy(driver.u.copy(), show=False)

        close(other.free_energy(show=False), E, 'energy', tol=1e-4)

    return True


@P.sub('foreign', quick=620, seed=seeds, nel=st.integers(1, 1), kind=kinds,
    name=smearings, nat=st.integers(2, 4), number=st.integers(1, 3),
    fmt=st.sampled_from(['%.10f', '%18.9e', '%.12g', '%+.10f']),
    extra=st.booleans(), wrong=st.lists(st.integers(0, 20), max_size=2),
    more=st.sampled_from([0, 0, 0, -1, 1]), comment=st.sampled_from(['',
    '3', 'CELL{H}: 1 0 0', '# Step: 5']), pad=st.sampled_from(['', '  ']),
    final=st.booleans())
def foreign(c):
    """Trajectories written by other programs."""

    g = rng(c.seed)
    driver = make(c, g, c.nat)
    ph = driver.elph.ph

    old = centered(g, ph.nat, 0.1)
    driver.u = old.copy()
    expected = old.reshape((-1, 3)).copy()

    text = []

    for step in range(c.number):
        nat = ph.nat + (c.more if step == c.number - 1 else 0)

        text.append('%s%d' % (c.pad, nat))
        text.append(c.comment)

        for na in range(nat):
            X = ph.atom_order[na] if na < ph.nat else 'H'
            u = g.uniform(-0.3, 0.3, 3)

            if na < ph.nat:
                r = ph.r[na] + u

                if na in c.wrong:
                    X = 'Zz'
                elif nat == ph.nat:
                    expected[na] = u
            else:
                r = u

            cols = [X] + [c.fmt % x for x in r]

            if c.extra:
                cols += ['0.5', '1.0', '-3.0']

            text.append(c.pad + '   '.join(cols))

    with Scratch() as path:
        with open(path('t.xyz'), 'w') as data:
            data.write('\n'.join(text) + '\n' * c.final)

        driver.from_xyz(path('t.xyz'))

    close(driver.u, expected.ravel(), 'displacement', tol=1e-8)

    return True


def parse_pwi(text):
    """Independent parser of PWscf input (one item per line)."""

    out = dict(cards={})
    lines = [line.strip() for line in text.splitlines()]
    lines = [line for line in lines if line]
    card = None

    for line in lines:
        word = line.split()[0].upper()

        if word.startswith('&') or word == '/':
            card = None
        elif word in ('ATOMIC_SPECIES', 'ATOMIC_POSITIONS', 'K_POINTS',
                'CELL_PARAMETERS'):
            card = word
            out['cards'][word] = [line.split()[1:]]
        elif card:
            out['cards'][card].append(line.split())
        else:
            key, value = [x.strip() for x in line.rstrip(',').split('=')]
            check(key.lower() not in out, 'duplicate key %s' % key)
            out[key.lower()] = value

    return out


@P.sub('pwi', quick=690, seed=seeds, nel=st.integers(1, 2), kind=kinds,
    name=smearings, nat=st.integers(2, 4), via=st.sampled_from(['driver',
    'ph']), amplitude=st.sampled_from([0.0, 0.1, 3.0]), extra=st.booleans(),
    override=st.booleans())
def pwi(c):
    g = rng(c.seed)
    driver = make(c, g, c.nat)
    ph = driver.elph.ph

    driver.u = centered(g, ph.nat, c.amplitude)
    u = driver.u.copy()
    r0 = ph.r.copy()
    order = list(ph.atom_order)

    kwargs = {}

    if c.extra:
        kwargs.update(ecutwfc=35.5, prefix='abc', calculation='scf',
            nosym=True, occupations='smearing', degauss=0.0125, nbnd=13)

    if c.override:
        kwargs.update(ktyp='automatic', k_points=(3, 4, 5, 0, 1, 0))

    with Scratch() as path:
        if c.via == 'driver':
            driver.to_pwi(path('t.pwi'), **kwargs)
            r = r0 + u.reshape((-1, 3))
        else:
            ph.to_pwi(path('t.pwi'), **kwargs)
            r = r0

        equal(driver.u, u, 'displacement modified')
        equal(ph.r, r0, 'positions modified')
        equal(list(ph.atom_order), order, 'atoms modified')

        with open(path('t.pwi')) as data:
            text = data.read()

        again = elphmod.bravais.read_pwi(path('t.pwi'))

    out = parse_pwi(text)
    cards = out['cards']

    equal(int(out['ibrav']), 0, 'ibrav')
    equal(int(out['nat']), ph.nat, 'nat')
    equal(int(out['ntyp']), len(set(order)), 'ntyp')

    alat = None

    for key in out:
        if key.replace(' ', '') == 'celldm(1)':
            alat = float(out[key])

    unit = cards['CELL_PARAMETERS'][0][0].strip('{}()').lower()
    scale = dict(alat=alat, bohr=1.0, angstrom=1 / elphmod.misc.a0)[unit]
    cell = np.array(cards['CELL_PARAMETERS'][1:], dtype=float) * scale

    close(cell, ph.a, 'cell', tol=1e-6)

    unit = cards['ATOMIC_POSITIONS'][0][0].strip('{}()').lower()
    rows = cards['ATOMIC_POSITIONS'][1:]

    equal([row[0] for row in rows], order, 'atoms')

    pos = np.array([row[1:4] for row in rows], dtype=float)

    if unit == 'crystal':
        pos = pos.dot(cell)
    else:
        pos = pos * dict(alat=alat, bohr=1.0,
            angstrom=1 / elphmod.misc.a0)[unit]

    close(pos, r, 'positions', tol=1e-6)

    species = cards['ATOMIC_SPECIES'][1:]

    equal(sorted(row[0] for row in species), sorted(set(order)), 'species')

    for X, mass, pp in species:
        close(float(mass) * 1822.888486 / 2, ph.M[order.index(X)], 'mass',
            tol=1e-3, rtol=1e-4)
        check(pp.startswith(X), 'pseudopotential')

    ks = cards.get('K_POINTS')

    if c.override:
        equal((ks[0][0].lower(), [int(x) for x in ks[1]]), ('automatic',
            [3, 4, 5, 0, 1, 0]), 'k points')
    elif c.via == 'driver':
        if driver.nk.prod() == 1:
            equal(ks[0][0].lower(), 'gamma', 'k points')
        else:
            equal((ks[0][0].lower(), [int(x) for x in ks[1]]), ('automatic',
                [*map(int, driver.nk), 0, 0, 0]), 'k points')

    if c.extra:
        equal(float(out['ecutwfc']), 35.5, 'cutoff')
        equal(int(out['nbnd']), 13, 'bands')
        equal(float(out['degauss']), 0.0125, 'smearing')
        equal(out['prefix'].strip('\'"'), 'abc', 'prefix')
        equal(out['calculation'].strip('\'"'), 'scf', 'calculation')
        equal(out['occupations'].strip('\'"'), 'smearing', 'occupations')
        check(out['nosym'].lower().strip('.') in ('t', 'true'), 'flag')

    # own reader:

    equal(list(again['at']), order, 'own reader: atoms')
    close(np.dot(np.array(again['r']), np.array(again['r_cell'])
        * again['celldm'][0]), r, 'own reader: positions', tol=1e-6)

    return True


def state(driver):
    results = dict(
        E=driver.free_energy(show=False),
        F=driver.jacobian(show=False),
        C=driver.hessian(),
        rho=driver.density(),
        mu=driver.mu,
        u=driver.u.copy(),
        Cq=driver.hessian(gamma_only=False))

    el = driver.electrons()
    ph = driver.phonons()

    results['H'] = el.H(0.3, 0.2, 0.1)
    results['D'] = ph.D(0.3, 0.2, 0.1)

    return results


SETTINGS = ['kT', 'n', 'nx', 'scale', 'size', 'pause', 'basis', 'sparse',
    'interactive', 'f', 'nk', 'nq', 'k', 'q', 'u', 'mu', 'e', 'C0', 'F0']


@P.sub('save', quick=220, seed=seeds, nel=st.integers(1, 2), kind=kinds,
    name=smearings, history=st.lists(st.sampled_from(['move', 'random',
    'hessian', 'save', 'load', 'call', 'settings', 'phonons']), max_size=6),
    settled=st.booleans(), basis=st.booleans(), interactive=st.booleans())
def save(c):
    g = rng(c.seed)
    np.random.seed(c.seed % 2 ** 32)
    driver = make(c, g)
    nat = driver.elph.ph.nat

    with Scratch() as path:
        count = 0

        def move():
            driver.u = centered(g, nat, 0.2)
            driver.diagonalize()

        for op in c.history:
            if op == 'move':
                move()
            elif op == 'random':
                driver.random_displacements(0.1)
            elif op == 'hessian':
                driver.hessian()
            elif op == 'phonons':
                driver.phonons()
            elif op == 'settings':
                driver.scale = float(g.uniform(1, 9))
                driver.size = float(g.uniform(1, 9))
                driver.pause = float(g.uniform(1, 9))
            elif op == 'call':
                driver(driver.elph.ph.a, driver.elph.ph.r
                    + centered(g, nat, 0.2).reshape((-1, 3)))
            elif op == 'save':
                count += 1
                driver.save(path('%d' % count))
            elif op == 'load' and count:
                driver = elphmod.md.Driver.load(path('%d' % count))

        if c.settled:
            move()
        else:
            driver.u = centered(g, nat, 0.2)

        if c.basis:
            driver.basis = [[0], []]

        keys = [key for key in vars(driver) if key not in ('elph',)]

        before = {key: np.copy(getattr(driver, key)) if isinstance(
            getattr(driver, key), np.ndarray) else getattr(driver, key)
            for key in SETTINGS}

        driver.interactive = c.interactive

        driver.save(path('last'))

        equal(driver.interactive, c.interactive, 'interactive mode')
        driver.interactive = False

        equal(sorted(vars(driver)), sorted(keys + ['elph']), 'attributes')

        # A later save under another name or a changed simulation must not
        # affect the file.

        new = elphmod.md.Driver.load(path('last'))

    for what, x in ('saved', driver), ('loaded', new):
        for key in SETTINGS:
            value = getattr(x, key)

            if isinstance(before[key], np.ndarray):
                equal(np.array(value), before[key], '%s (%s)' % (key, what))
            else:
                equal(value, before[key], '%s (%s)' % (key, what))

    a = state(new)
    b = state(driver)

    for key in b:
        close(a[key], b[key], '%s after loading' % key, tol=1e-9)

    # further steps:

    u = centered(g, nat, 0.3)

    close(new.free_energy(u.copy(), show=False), driver.free_energy(u.copy(),
        show=False), 'energy of next step', tol=1e-9)
    close(new.jacobian(show=False), driver.jacobian(show=False),
        'forces of next step', tol=1e-9)

    # independence:

    old = driver.u.copy()
    new.u[:] += 1.0
    equal(driver.u, old, 'independence')

    return True


SCRIPT = '''
import sys
sys.path.insert(0, %r)
import elphmod, numpy as np
elphmod.misc.verbosity = 0
d = elphmod.md.Driver.load(%r)
np.savez(%r, E=d.free_energy(show=False), F=d.jacobian(show=False),
    C=d.hessian(), rho=d.density(), mu=d.mu, u=d.u)
'''


@P.sub('process', quick=70, thorough=60, seed=seeds, nel=st.integers(1, 2),
    kind=kinds, name=smearings)
def process(c):
    """Continue simulation in a new process."""

    g = rng(c.seed)
    driver = make(c, g)
    driver.u = centered(g, driver.elph.ph.nat, 0.2)

    with Scratch() as path:
        driver.save(path('driver'))

        env = {k: v for k, v in os.environ.items() if not
            k.startswith(('OMPI_', 'PMIX_', 'ORTE_', 'PRTE_'))}

        env.update({k: v for k, v in os.environ.items()
            if k.startswith('OMPI_ALLOW') or k.startswith('OMPI_MCA_btl')
            or k in ('OMPI_MCA_pml', 'OMPI_MCA_plm')})
        env['TMPDIR'] = path('')

        for attempt in range(3):
            p = subprocess.run([sys.executable, '-B', '-c', SCRIPT % (REPO,
                path('driver'), path('out.npz'))], env=env,
                stdin=subprocess.DEVNULL, capture_output=True, text=True)

            if 'MPI_Init' not in p.stderr:
                break

        if p.returncode:
            raise Violation('new process fails:\n' + p.stderr[-2000:])

        out = np.load(path('out.npz'))
        out = {key: out[key] for key in out}

    new = dict(E=driver.free_energy(show=False), F=driver.jacobian(show=False),
        C=driver.hessian(), rho=driver.density(), mu=driver.mu, u=driver.u)

    for key in new:
        close(out[key], new[key], '%s in new process' % key, tol=1e-8)

    return True


@P.sub('ipi', quick=440, seed=seeds, nel=st.integers(1, 2), kind=kinds,
    name=smearings, amplitude=st.sampled_from([0.0, 0.1, 0.5]),
    shift=st.booleans(), steps=st.integers(1, 3))
def ipi(c):
    g = rng(c.seed)
    driver = make(c, g)
    other = make(c, rng(c.seed))
    ph = driver.elph.ph

    for step in range(c.steps):
        u = centered(g, ph.nat, c.amplitude)
        r = ph.r + u.reshape((-1, 3))

        if c.shift:
            r = r + g.uniform(-2.0, 2.0, 3)

        a = ph.a * 1.0
        old = r.copy()

        E, F, virial, extras = driver(a, r)

        equal(r, old, 'positions modified')
        equal(a, ph.a, 'cell modified')
        equal(np.shape(virial), (3, 3), 'virial')
        equal(np.any(virial), np.bool_(False), 'virial')
        check(isinstance(extras, str), 'extras')

        E1 = other.free_energy(u.copy(), show=False)
        F1 = other.jacobian(show=False)

        dos = (2 / np.prod(other.nk) * other.f.delta(other.e / other.kT).sum()
            / other.kT)

        close(E, E1 / 2, 'energy in Hartree', tol=1e-4)

        if dos > 0.05:
            close(np.ravel(F), -F1 / 2, 'forces in Hartree per bohr', tol=3e-4)

    return c.amplitude > 0
