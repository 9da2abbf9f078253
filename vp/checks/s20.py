"""S20: Input files are parsed and written without loss."""

import copy
import os
import shutil
import tempfile

import numpy as np

import elphmod

from vp import gen
from vp.harness import (Property, Violation, check, close, equal, rng, seeds,
    sizes, st, ints, raises)

P = Property('S20',
    'Random structures and parameters printed in random admissible layouts '
    '(upper and lower case, blanks, tabs, blank lines, comments, quotes, '
    'commas, Fortran exponents, brackets around units, order of cards) and '
    'by the writers of the package. Non-trivial: more than one item, atom, or '
    'point, or a brace expression with at least one product.',
    ['Namelist arrays have at most one index, and repeat counts are not '
        'used.', 'Only parameters known to a writer are expected in the file.',
        'Vanishing lattice parameters are equivalent to absent ones.'])


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vp_s20_')
        return lambda name: os.path.join(self.path, name)

    def __exit__(self, *args):
        shutil.rmtree(self.path)


# --------------------------------------------------------------------------
# random layouts

ALPHABET = list('abcXYZ019_-.') + [' ', '/', '!', ',', '=', '&', '(', ')',
    ';', '#', '%', ':', '*']


class Layout:
    """Prints things in random but admissible ways."""

    def __init__(self, g, plain=False):
        self.g = g
        self.plain = plain

    def pick(self, *options):
        return options[int(self.g.integers(len(options)))]

    def chance(self, p):
        return not self.plain and self.g.random() < p

    def blank(self):
        if self.plain:
            return ''
        return self.pick('', '', ' ', '  ', '\t')

    def gap(self):
        if self.plain:
            return ' '
        return self.pick(' ', '  ', '\t', '     ')

    def case(self, word):
        if self.plain:
            return word
        return self.pick(word, word.upper(), word.lower(), word.capitalize())

    def comment(self, mark='!'):
        return self.pick(*mark) + self.pick(' comment', " it's", ' "quote',
            " a = 1, b='x' / &end", '', ' = / ! 1.0', ' (1) = 2')

    def eol(self, mark='!'):
        out = ''

        if self.chance(0.2):
            out += ' ' + self.comment(mark)

        out += '\n'

        while self.chance(0.15):
            out += self.pick('', '  ', '\t') + '\n'

        return out

    def number(self, x):
        """Any representation of float, returns also exact value."""

        digits = int(self.g.integers(1, 17))
        style = int(self.g.integers(5))

        if self.plain or style == 0:
            text = repr(float(x))
        elif style == 1:
            text = '%.*f' % (digits, x)
        elif style == 2:
            text = '%.*E' % (digits, x)
        elif style == 3:
            text = '%g' % x
            if text.lstrip('+-').isdigit():
                text += '.'
        else:
            text = repr(float(x))
            if text.startswith('0.'):
                text = text[1:]
            if text.endswith('.0'):
                text = text[:-1]

        value = float(text)

        if not self.plain:
            if 'e' in text.lower():
                e = self.pick('e', 'E', 'd', 'D')
                text = text.replace('E', 'e').replace('e', e)
            elif style and self.g.integers(3) == 0:
                text += self.pick('d0', 'D0', 'E0', 'e+00', 'd+00')

            if text[0] != '-' and self.chance(0.1):
                text = '+' + text

        return text, value

    def item(self, value):
        """Namelist item."""

        if isinstance(value, bool):
            if value:
                return self.pick('.true.', '.TRUE.', 'T', 't', '.t.', '.True.',
                    'True', 'true'), value
            return self.pick('.false.', '.FALSE.', 'F', 'f', '.F.', '.False.',
                'False', 'false'), value

        if isinstance(value, str):
            quote = self.pick("'", '"')
            return quote + value.replace(quote, 2 * quote) + quote, value

        if isinstance(value, int):
            if value >= 0 and self.chance(0.1):
                return '+%d' % value, value
            return '%d' % value, value

        return self.number(value)

    def namelist(self, name, items):
        """Print namelist, return also exact values."""

        out = self.eol() if self.chance(0.2) else ''
        out += self.blank() + '&' + self.case(name) + self.eol()

        exact = dict()

        def separate():
            if self.plain or self.g.integers(2):
                return (',' if self.chance(0.4) else '') + self.eol()
            return self.pick(', ', ',', ' , ', ' ', '\t', ' ,\n')

        def key(name, index=None):
            text = self.case(name)

            if index is not None:
                text += self.blank() + '(' + self.blank() + str(index)
                text += self.blank() + ')'

            return self.blank() + text + self.blank() + '=' + self.blank()

        for name, value in items:
            if isinstance(value, list):
                exact[name] = [None] * len(value)
                n = 0
                parts = []

                while n < len(value):
                    if value[n] is None:
                        n += 1
                        continue

                    m = n + 1

                    while m < len(value) and value[m] is not None \
                            and self.chance(0.5):
                        m += 1

                    values = [self.item(x) for x in value[n:m]]
                    exact[name][n:m] = [x for _, x in values]

                    index = n + 1

                    if n == 0 and (len(value) == 1 or m == len(value)
                            or self.chance(0.3)):
                        index = self.pick(None, 1)

                    parts.append((key(name, index), values))
                    n = m

                # any order
                for n in self.g.permutation(len(parts)) \
                        if self.ordered is False else range(len(parts)):
                    out += parts[n][0]
                    for i, (text, _) in enumerate(parts[n][1]):
                        if i:
                            out += self.pick(',', ', ', ' ', ' , ', ',\n ')
                        out += text
                    out += separate()
            else:
                text, exact[name] = self.item(value)
                out += key(name) + text + separate()

        if self.chance(0.2):
            return out + '/' + self.eol(), exact

        return out + '\n/' + self.eol(), exact

    ordered = True

    def card(self, name, option=None, brackets='{}()'):
        out = self.blank() + self.case(name)

        if option is not None:
            pair = self.pick(None, *[brackets[i:i + 2]
                for i in range(0, len(brackets), 2)])
            option = self.case(option)

            if pair is None or self.plain:
                out += self.gap() + option
            else:
                out += (self.gap() + pair[0] + self.blank() + option
                    + self.blank() + pair[1])

        return out + self.eol('!#')

    def row(self, *values):
        """Line of words and numbers, also returns values."""

        words = []
        exact = []

        for value in values:
            if isinstance(value, str):
                words.append(value)
                exact.append(value)
            elif isinstance(value, (int, np.integer)):
                words.append('%d' % value)
                exact.append(int(value))
            else:
                text, x = self.number(value)
                words.append(text)
                exact.append(x)

        return self.blank() + self.gap().join(words) + self.eol('!#'), exact


def text(g, nonempty=False):
    n = int(g.integers(1 if nonempty else 0, 13))
    s = ''.join(g.choice(ALPHABET, n))

    if g.integers(4) == 0:
        s += '\'s'
    if g.integers(6) == 0:
        s = '"%s" ' % s

    return s.strip() if nonempty and s.strip() else s or 'x'


def scalar(g):
    kind = int(g.integers(5))

    if kind == 0:
        return bool(g.integers(2))
    if kind == 1:
        return int(g.integers(-1000, 1000))
    if kind == 2:
        return text(g)
    return magnitude(g)


def magnitude(g):
    return float(g.uniform(-1, 1) * 10.0 ** g.integers(-12, 7))


WORDS = ['prefix', 'calculation', 'ecutwfc', 'title', 'nosym', 'conv_thr',
    'celldm', 'nbnd', 'tot_charge', 'fildyn', 'q1', 'ldisp', 'tr2_ph', 'a',
    'f', 't', 'proj', 'wdata', 'x_y_2', 'starting_magnetization', 'e1d']


def items(g, n):
    out = []

    for key in g.permutation(WORDS)[:n]:
        if g.integers(4) == 0:
            size = int(g.integers(2, 6))
            kind = int(g.integers(4))
            value = [[int(g.integers(99)), magnitude(g), text(g),
                bool(g.integers(2))][kind] if g.integers(4) or i == size - 1
                else None for i in range(size)]
        else:
            value = scalar(g)

        out.append((str(key), value))

    return out


def same(got, expected, message):
    """Equal values and types."""

    if isinstance(expected, list):
        check(isinstance(got, list), message + ': type', got=got,
            expected=expected)
        equal(len(got), len(expected), message + ': number of elements',
            elements=got, reference=expected)

        for a, b in zip(got, expected):
            same(a, b, message)
    elif isinstance(expected, bool) or expected is None \
            or isinstance(expected, str):
        check(type(got) is type(expected) and got == expected, message,
            got=got, expected=expected)
    else:
        check(isinstance(got, (int, float)) and not isinstance(got, bool)
            and got == expected, message, got=got, expected=expected)

        if isinstance(expected, int):
            check(isinstance(got, int), message + ': type', got=got,
                expected=expected)


def same_items(got, expected, message='value'):
    equal(sorted(got), sorted(expected), message + ': keys')

    for key in expected:
        same(got[key], expected[key], '%s of %s' % (message, key))


@P.sub('namelists', quick=7200, seed=seeds, sizes=st.lists(st.integers(0, 6),
    min_size=1, max_size=4), junk=st.booleans(), end=st.booleans())
def namelists(c):
    g = rng(c.seed)
    lay = Layout(g)
    out = ''

    if c.junk:
        out += lay.pick('Phonons of something\n', "It's a title\n",
            'a = 1, b = 2\n', '! comment &bad a = 1 /\n')

    expected = dict()

    for n, size in enumerate(c.sizes):
        name = ['control', 'SYSTEM', 'inputph', 'x2'][n]
        string, exact = lay.namelist(name, items(g, size))
        out += string
        expected[name.lower()] = exact

    if c.junk:
        out += lay.pick('ATOMIC_POSITIONS alat\nH 0.0 0.0 0.0\n',
            '3\n0.0 0.0 0.0 1\n', "K_POINTS ' \n", '')

    if c.end:
        out = out.rstrip('\n')

    with Scratch() as path:
        with open(path('in'), 'w') as f:
            f.write(out)

        got = elphmod.misc.read_namelists(path('in'))
        flat = elphmod.misc.read_input_data(path('in'))
        more = getattr(elphmod.bravais, lay.pick('read_ph', 'read_q2r'))(
            path('in'))

    equal(list(got), list(expected), 'namelists', file=out)

    reference = dict()

    for name in expected:
        same_items(got[name], expected[name])
        reference.update(expected[name])

    same_items(flat, reference, 'merged value')
    same_items(more, reference, 'merged value')

    return sum(c.sizes) > 1


# --------------------------------------------------------------------------
# PWscf input

SPECIES = ['H', 'C', 'Ta', 'S', 'Se1', 'Mo_a', 'Te-2', 'H1']


def structure(g, c):
    """Random structure in format of the package."""

    s = dict()

    nat = c.nat
    ntyp = int(g.integers(1, min(nat, 3) + 1))
    species = [str(x) for x in g.permutation(SPECIES)[:ntyp]]

    s['ntyp'] = ntyp
    s['nat'] = nat
    s['at_species'] = species
    s['mass'] = [float(x) for x in np.round(g.uniform(1, 200, ntyp), 6)]
    s['pp'] = [x + str(g.choice(['.upf', '.pbe-n.UPF', '.pz-hgh.UPF']))
        for x in species]
    s['at'] = species + [str(x) for x in g.choice(species, nat - ntyp)]
    s['at'] = [s['at'][i] for i in g.permutation(nat)]

    s['coords'] = c.coords

    if c.coords == 'crystal_sg':
        s['r'] = [str(g.choice(['1a', '2b', '8g'])) for n in range(nat)]
        s['space_group'] = int(g.integers(1, 231))
        s['uniqueb'] = bool(g.integers(2))
    else:
        s['r'] = np.round(g.uniform(-1, 1, (nat, 3))
            * 10.0 ** g.integers(-1, 3), 9)

    if c.cell == 'free':
        s['ibrav'] = 0
        s['cell_units'] = str(g.choice(['alat', 'bohr', 'angstrom']))
        s['r_cell'] = np.round(g.uniform(-1, 1, (3, 3))
            * 10.0 ** g.integers(0, 3), 9)
        if s['cell_units'] == 'alat':
            s['a'] = float(g.uniform(1, 9))
    elif c.cell == 'celldm':
        s['ibrav'] = int(g.choice([1, 4, 8, 14, -12]))
        s['celldm'] = [float(g.uniform(1, 20))]
        for n in range(int(g.integers(0, 6))):
            s['celldm'].append(float(g.uniform(0.1, 3))
                if g.integers(3) else None)
        while s['celldm'][-1] is None:
            s['celldm'].pop()
    else:
        s['ibrav'] = int(g.choice([1, 4, 8, 14, -12]))
        for key in 'a', 'b', 'c', 'cosbc', 'cosac', 'cosab':
            if key == 'a' or g.integers(2):
                s[key] = float(g.uniform(-1, 1) if 'cos' in key
                    else g.uniform(1, 20))

    if c.points != 'none':
        s['ktyp'] = c.points

    if c.points == 'automatic':
        s['k_points'] = [int(x) for x in g.integers(1, 30, 3)] + [
            int(x) for x in g.integers(0, 2, 3)]
    elif c.points not in ('gamma', 'none'):
        s['nks'] = int(g.integers(1, 6))
        s['k_points'] = np.round(g.uniform(-1, 1, (s['nks'], 4)), 9)
        s['k_points'][:, 3] = (g.integers(1, 30, s['nks']) if g.integers(2)
            else np.round(g.uniform(0, g.choice([2, 1e-3]), s['nks'])
                + g.integers(0, 3, s['nks']), 9))

    extra = dict(
        title=text(g, True), prefix=text(g, True), outdir='./work/%d' %
        g.integers(9), pseudo_dir='../pp', calculation=str(g.choice(['scf',
        'nscf', 'bands', 'relax', 'md', 'vc-relax', 'vc-md'])),
        tprnfor=bool(g.integers(2)), tstress=bool(g.integers(2)),
        nstep=int(g.integers(1000)), forc_conv_thr=float(g.choice([1e-5,
        1.5e-10])), ecutwfc=float(g.uniform(20, 100)), ecutrho=400.0,
        nbnd=int(g.integers(1, 99)), occupations='smearing', smearing='f-d',
        degauss=float(g.uniform(1e-4, 1e-1)), nosym=bool(g.integers(2)),
        noinv=bool(g.integers(2)), tot_charge=float(g.normal()),
        assume_isolated='2D', nspin=2, noncolin=False, lspinorb=True,
        tot_magnetization=-1.0, starting_magnetization=[
        float(g.normal()) for n in range(int(g.integers(2, 4)))],
        origin_choice=1, rhombohedral=bool(g.integers(2)),
        electron_maxstep=int(g.integers(1000)), conv_thr=1e-13,
        diagonalization='david', diago_full_acc=True, mixing_beta=0.7,
        startingpot='file', startingwfc='random', scf_must_converge=False,
        ion_dynamics='bfgs', upscale=100.0, cell_dynamics='bfgs',
        cell_dofree='2Dxy', press=float(g.normal()), press_conv_thr=0.5)

    for key in sorted(extra):
        if g.integers(3) == 0:
            s[key] = extra[key]

    calculation = s.get('calculation')

    for key in 'ion_dynamics', 'upscale':
        if calculation not in ('relax', 'md', 'vc-relax', 'vc-md'):
            s.pop(key, None)

    for key in ('cell_dynamics', 'cell_dofree', 'press', 'press_conv_thr'):
        if calculation not in ('vc-relax', 'vc-md'):
            s.pop(key, None)

    return s


CARDS = ('at_species', 'mass', 'pp', 'coords', 'at', 'r', 'ktyp', 'nks',
    'k_points', 'cell_units', 'r_cell')

options = dict(seed=seeds, nat=st.integers(1, 6), coords=st.sampled_from([
    'alat', 'bohr', 'angstrom', 'crystal', 'crystal_sg']),
    cell=st.sampled_from(['free', 'celldm', 'constants']),
    points=st.sampled_from(['none', 'gamma', 'automatic', 'tpiba', 'crystal',
    'tpiba_b', 'crystal_b', 'tpiba_c']))


def compare(got, expected, tol=0, message='PWscf input'):
    equal(sorted(got), sorted(expected), message + ': keys')

    for key, value in expected.items():
        if isinstance(value, np.ndarray):
            if tol:
                close(got[key], value, '%s: %s' % (message, key), tol=tol,
                    rtol=0)
            else:
                equal(got[key], value, '%s: %s' % (message, key))
        else:
            same(got[key], value, '%s: %s' % (message, key))


@P.sub('read_pwi', quick=4800, drop=st.booleans(), **options)
def read_pwi(c):
    """Files in any layout."""

    g = rng(c.seed)
    lay = Layout(g)
    s = structure(g, c)
    expected = dict()
    out = ''

    # namelists

    pairs = [(key, s[key]) for key in s if key not in CARDS]
    pairs = [pairs[i] for i in g.permutation(len(pairs))]
    cut = sorted(g.integers(0, len(pairs) + 1, 2))

    for name, part in ('control', pairs[:cut[0]]), ('system',
            pairs[cut[0]:cut[1]]), ('electrons', pairs[cut[1]:]):
        string, exact = lay.namelist(name, part)
        out += string
        expected.update(exact)

    # cards in any order

    def species():
        out = lay.card('atomic_species')
        expected.update(at_species=[], mass=[], pp=[])
        for row in zip(s['at_species'], s['mass'], s['pp']):
            string, exact = lay.row(*row)
            out += string
            for key, x in zip(['at_species', 'mass', 'pp'], exact):
                expected[key].append(x)
        return out

    def positions():
        expected['coords'] = s['coords']
        drop = c.drop and s['coords'] == 'alat'
        out = lay.card('atomic_positions', None if drop else s['coords'])
        r = []
        for X, x in zip(s['at'], s['r']):
            string, exact = lay.row(X, *([x] if isinstance(x, str) else x))
            out += string
            r.append(exact[1:])
        expected['at'] = s['at']
        expected['r'] = [x for x, in r] if s['coords'] == 'crystal_sg' \
            else np.array(r)
        return out

    def points():
        if 'ktyp' not in s:
            return ''
        expected['ktyp'] = s['ktyp']
        drop = c.drop and s['ktyp'] == 'tpiba'
        out = lay.card('k_points', None if drop else s['ktyp'])
        if s['ktyp'] == 'automatic':
            string, expected['k_points'] = lay.row(*s['k_points'])
            out += string
        elif s['ktyp'] != 'gamma':
            expected['nks'] = s['nks']
            out += lay.row(s['nks'])[0]
            k = []
            for row in s['k_points']:
                string, exact = lay.row(*row[:3], int(row[3])
                    if row[3] == int(row[3]) else row[3])
                out += string
                k.append(exact)
            expected['k_points'] = np.array(k, dtype=float)
        return out

    def cell():
        if 'r_cell' not in s:
            return ''
        expected['cell_units'] = s['cell_units']
        drop = c.drop and s['cell_units'] == 'bohr'
        out = lay.card('cell_parameters', None if drop else s['cell_units'])
        r = []
        for row in s['r_cell']:
            string, exact = lay.row(*row)
            out += string
            r.append(exact)
        expected['r_cell'] = np.array(r)
        return out

    for n in g.permutation(4):
        out += [species, positions, points, cell][n]()

        if lay.chance(0.2):
            out += lay.comment('!#') + '\n'

    with Scratch() as path:
        with open(path('in'), 'w') as f:
            f.write(out)

        got = elphmod.bravais.read_pwi(path('in'))
        again = elphmod.bravais.read_pwi(path('in'))

        elphmod.bravais.write_pwi(path('out'), got)
        compare(got, again, message='modified by writing')
        more = elphmod.bravais.read_pwi(path('out'))

    compare(got, expected)

    for key in set(got) & set(more): # see write_pwi for precision
        if key in ('at', 'at_species', 'pp', 'coords', 'ktyp', 'cell_units',
                'nat', 'ntyp', 'ibrav', 'nks'):
            same(more[key], got[key], 'round trip: ' + key)

    return len(pairs) > 3


@P.sub('pwi', quick=4800, numpy=st.booleans(), **options)
def pwi(c):
    """Files written by the package."""

    g = rng(c.seed)
    s = structure(g, c)
    given = copy.deepcopy(s)

    if c.numpy: # equivalent input
        for key in list(given):
            if isinstance(given[key], bool):
                given[key] = np.bool_(given[key])
            elif isinstance(given[key], int):
                given[key] = np.int64(given[key])
            elif isinstance(given[key], float):
                given[key] = np.float64(given[key])
            elif key == 'celldm' and None not in given[key]:
                given[key] = np.array(given[key])
            elif key in ('mass', 'k_points'):
                given[key] = np.array(given[key])

    before = copy.deepcopy(given)

    with Scratch() as path:
        elphmod.bravais.write_pwi(path('in'), given)

        compare(given, before, message='structure modified') if not c.numpy \
            else None

        got = elphmod.bravais.read_pwi(path('in'))
        elphmod.bravais.write_pwi(path('out'), got)

        with open(path('in')) as f:
            first = f.read()
        with open(path('out')) as f:
            second = f.read()

    compare(got, s, tol=5.1e-10)
    equal(second, first, 'second round trip')

    return c.nat > 1


@P.sub('cell', quick=1800, seed=seeds, units=st.sampled_from(['alat', 'bohr',
    'angstrom']), bohr=st.booleans(), how=st.sampled_from(['celldm', 'a']))
def cell(c):
    """Lattice from file."""

    g = rng(c.seed)
    lay = Layout(g)
    a = g.uniform(-1, 1, (3, 3))
    alat = float(g.uniform(1, 9))
    a0 = 0.529177210903

    pairs = [('ibrav', 0)]

    if c.units == 'alat':
        pairs.append(('celldm', [alat]) if c.how == 'celldm' else ('a', alat))

    out, exact = lay.namelist('system', pairs)
    out += lay.card('cell_parameters', c.units)
    r = []

    for row in a:
        string, x = lay.row(*row)
        out += string
        r.append(x)

    with Scratch() as path:
        with open(path('in'), 'w') as f:
            f.write(out)

        s = elphmod.bravais.read_pwi(path('in'))

    ref = np.array(r) # in bohr:

    if c.units == 'alat':
        ref = ref * (exact['celldm'][0] if c.how == 'celldm'
            else exact['a'] / a0)
    elif c.units == 'angstrom':
        ref = ref / a0

    if not c.bohr:
        ref = ref * a0

    close(elphmod.bravais.primitives(bohr=c.bohr, **s), ref, 'lattice vectors',
        tol=1e-8)

    return True


# --------------------------------------------------------------------------
# Wannier90

SITES = ['Ta', 'S', 'C1', 'f=0.25,0.5,0.0', 'c=1.0,0.0,-0.5']
ORBITALS = ['dz2', 's', 'dxy, dx2-y2', 'l=1,mr=1,3', 'px;py;pz',
    's:z=0,0,1:x=1,0,0', 'sp3-1:r=2']


def wannier(g):
    s = dict()

    for key in 'num_bands', 'num_wann', 'dis_num_iter', 'num_iter', \
            'search_shells':
        if g.integers(2):
            s[key] = int(g.integers(0, 500))

    for key in 'dis_win_min', 'dis_win_max', 'dis_froz_min', 'dis_froz_max':
        if g.integers(2):
            s[key] = magnitude(g)

    for key in 'write_hr', 'bands_plot', 'wannier_plot':
        if g.integers(2):
            s[key] = bool(g.integers(2))

    if g.integers(2):
        s['mp_grid'] = g.integers(1, 13, 3)

    if g.integers(2):
        n = int(g.integers(1, 4))
        s['proj'] = dict((str(x), str(g.choice(ORBITALS)))
            for x in g.permutation(SITES)[:n])

    if g.integers(2):
        s['kpoint_path'] = ['G 0.0 0.0 0.0 M 0.5 0.0 0.0', 'M 0.5 0.0 0.0 '
            'K 0.3333 0.3333 0.0'][:int(g.integers(1, 3))]

    if g.integers(4):
        s['unit_cell'] = np.round(g.uniform(-9, 9, (3, 3)), 9)
        if g.integers(3) == 0:
            s['unit_cell_units'] = str(g.choice(['bohr', 'ang']))

    if g.integers(4):
        nat = int(g.integers(1, 5))
        s['atoms_coords'] = str(g.choice(['cart', 'frac']))
        s['at'] = [str(x) for x in g.choice(SITES[:3], nat)]
        s['atoms'] = np.round(g.uniform(-9, 9, (nat, 3)), 9)
        if s['atoms_coords'] == 'cart' and g.integers(3) == 0:
            s['atoms_units'] = str(g.choice(['bohr', 'ang']))

    if g.integers(2):
        n = int(g.integers(1, 6))
        s['kpoints'] = np.round(g.uniform(-1, 1, (n, 4)), 9)

        if g.integers(2):
            s['kpoints'][:, 3] = 0

    return s


def compare_win(got, expected, tol=0):
    equal(sorted(got), sorted(expected), 'keys')

    for key, value in expected.items():
        if isinstance(value, np.ndarray):
            close(got[key], value, key, tol=tol, rtol=0)
        else:
            same(got[key], value, key) if not isinstance(value, dict) else \
                equal(got[key], value, key)


@P.sub('read_win', quick=3600, seed=seeds)
def read_win(c):
    g = rng(c.seed)
    lay = Layout(g)
    s = wannier(g)
    expected = dict(s)
    parts = []

    def line(key, text):
        return (lay.blank() + lay.case(key) + lay.pick(' = ', ' : ', ' ', '=',
            ':', '  ') + text + lay.eol('!#'))

    def block(name, rows):
        return (lay.blank() + lay.case('begin') + ' ' + lay.case(name)
            + lay.eol('!#') + ''.join(rows) + lay.case('end') + ' '
            + lay.case(name) + lay.eol('!#'))

    for key in s:
        value = s[key]

        if isinstance(value, bool):
            text = lay.pick('.true.', 'T', 'true', '.TRUE.') if value else \
                lay.pick('.false.', 'F', 'false', '.FALSE.')
            parts.append(line(key, text))

        elif isinstance(value, int):
            parts.append(line(key, '%d' % value))

        elif isinstance(value, float):
            text, expected[key] = lay.number(value)
            parts.append(line(key, text))

        elif key == 'mp_grid':
            parts.append(line(key, '%d %d %d' % tuple(value)))

        elif key == 'proj':
            parts.append(block('projections', [lay.blank() + site
                + lay.pick(':', ' : ', ': ') + orbitals + lay.eol('!#')
                for site, orbitals in value.items()]))

        elif key == 'kpoint_path':
            parts.append(block(key, [lay.blank() + row + lay.eol('!#')
                for row in value]))

        elif key in ('unit_cell', 'atoms', 'kpoints'):
            rows = []
            exact = []

            if key + '_units' in s:
                rows.append(lay.blank() + lay.case(s[key + '_units'])
                    + lay.eol('!#'))

            short = key == 'kpoints' and not value[:, 3].any()

            for n, x in enumerate(value):
                head = [s['at'][n]] if key == 'atoms' else []
                text, row = lay.row(*head, *x[:3 if short else None])
                rows.append(text)
                exact.append(row[len(head):] + [0.0] * short)

            expected[key] = np.array(exact)

            parts.append(block(dict(unit_cell='unit_cell_cart',
                atoms='atoms_%s' % s.get('atoms_coords'),
                kpoints='kpoints')[key], rows))

    with Scratch() as path:
        with open(path('in'), 'w') as f:
            if lay.chance(0.3):
                f.write(lay.comment('!#') + '\n\n')

            for n in g.permutation(len(parts)):
                f.write(parts[n])

        got = elphmod.bravais.read_win(path('in'))

    compare_win(got, expected)

    return len(parts) > 3


@P.sub('win', quick=3000, seed=seeds)
def win(c):
    g = rng(c.seed)
    s = wannier(g)
    before = copy.deepcopy(s)

    with Scratch() as path:
        elphmod.bravais.write_win(path('in'), s)
        compare_win(s, before)

        got = elphmod.bravais.read_win(path('in'))
        elphmod.bravais.write_win(path('out'), got)

        with open(path('in')) as f:
            first = f.read()
        with open(path('out')) as f:
            second = f.read()

    compare_win(got, s, tol=5.1e-10)
    equal(second, first, 'second round trip')

    return len(s) > 3


# --------------------------------------------------------------------------
# matdyn.x etc.

@P.sub('matdyn', quick=3600, seed=seeds, nq=sizes(0, 6, 20),
    columns=st.sampled_from([3, 4]))
def matdyn(c):
    g = rng(c.seed)
    lay = Layout(g)

    s = dict()

    for key in 'flfrc', 'flfrq', 'fldos', 'fleig', 'flvec', 'asr':
        if g.integers(2):
            s[key] = text(g, True)

    for key in 'loto_2d', 'q_in_band_form', 'q_in_cryst_coord':
        if g.integers(2):
            s[key] = bool(g.integers(2))

    out, expected = lay.namelist('input', [(key, s[key]) for key in s])
    q = np.round(g.uniform(-1, 1, (c.nq, c.columns)), 9)

    if c.nq:
        rows = []
        out += lay.row(c.nq)[0]
        for x in q:
            string, row = lay.row(*x)
            out += string
            rows.append(row)

        expected['nq'] = s['nq'] = c.nq
        expected['q'] = np.array(rows)
        s['q'] = q

    before = copy.deepcopy(s)

    with Scratch() as path:
        with open(path('in'), 'w') as f:
            f.write(out)

        got = elphmod.bravais.read_matdyn(path('in'))

        elphmod.bravais.write_matdyn(path('own'), s)
        own = elphmod.bravais.read_matdyn(path('own'))

    compare(got, expected, message='matdyn input')
    compare(s, before, message='modified')
    compare(own, s, tol=5.1e-10, message='matdyn round trip')

    return c.nq > 1


KEYS = dict(
    ph=dict(prefix=str, outdir=str, fildyn=str, fildvscf=str, ldisp=bool,
        nq1=int, nq2=int, nq3=int, tr2_ph=float, alpha_mix=[float],
        cdfpt=bool, subspace=str, cdfpt_bnd=[int], cdfpt_orb=[int]),
    q2r=dict(fildyn=str, flfrc=str, zasr=str),
    epw=dict(prefix=str, outdir=str, dvscf_dir=str, wannierize=bool,
        elph=bool, epbwrite=bool, epwwrite=bool, epbread=bool, epwread=bool,
        use_ws=bool, nbndsub=int, bands_skipped=str, dis_win_min=float,
        dis_win_max=float, dis_froz_min=float, dis_froz_max=float,
        proj=[str], num_iter=int, wdata=[str], nk1=int, nk2=int, nk3=int,
        nq1=int, nq2=int, nq3=int, nkf1=int, nkf2=int, nkf3=int, nqf1=int,
        nqf2=int, nqf3=int))


@P.sub('inputs', quick=4800, seed=seeds, code=st.sampled_from(sorted(KEYS)),
    numpy=st.booleans())
def inputs(c):
    """Files with namelists only."""

    g = rng(c.seed)
    lay = Layout(g)
    s = dict()

    def value(kind):
        if kind is str:
            return text(g, True)
        if kind is bool:
            return bool(g.integers(2))
        if kind is int:
            return int(g.integers(-9, 99))
        return magnitude(g)

    for key, kind in KEYS[c.code].items():
        if g.integers(3) == 0:
            continue
        if isinstance(kind, list):
            least = 1 if key in ('proj', 'wdata') else 2
            s[key] = [value(kind[0]) for n in range(int(g.integers(least,
                5)))]
        else:
            s[key] = value(kind)

    items = list(s.items())
    items = [items[i] for i in g.permutation(len(items))]
    out, expected = lay.namelist('input' + c.code, items)

    read = getattr(elphmod.bravais, 'read_' + c.code)
    write = getattr(elphmod.bravais, 'write_' + c.code)

    given = copy.deepcopy(s)

    if c.numpy:
        for key in given:
            if isinstance(given[key], list) and not isinstance(given[key][0],
                    str):
                given[key] = np.array(given[key])

    with Scratch() as path:
        with open(path('in'), 'w') as f:
            f.write(lay.pick('', 'title of calculation\n') + out)

        got = read(path('in'))

        before = copy.deepcopy(given)
        write(path('own'), given)
        check(repr(before) == repr(given), 'input modified')

        own = read(path('own'))
        write(path('again'), own)

        with open(path('own')) as f:
            first = f.read()
        with open(path('again')) as f:
            second = f.read()

    same_items(got, expected)
    same_items(own, s, 'round trip')
    equal(second, first, 'second round trip')

    return len(s) > 2


# --------------------------------------------------------------------------
# VASP

@P.sub('poscar', quick=1800, seed=seeds, groups=st.lists(st.integers(0, 2),
    min_size=1, max_size=4), selective=st.booleans(), scale=st.sampled_from([
    'one', 'factor', 'volume']), extra=st.booleans())
def poscar(c):
    g = rng(c.seed)
    lay = Layout(g)
    t = np.round(g.uniform(-9, 9, (3, 3)), 12)

    if abs(np.linalg.det(t)) < 1:
        return False

    names = [['Ta', 'S', 'Se'][n] for n in c.groups]
    numbers = [int(n) for n in g.integers(1, 4, len(names))]

    factor = dict(one=1.0, factor=round(g.uniform(0.5, 5), 6),
        volume=-round(g.uniform(1, 99), 6))[c.scale]

    out = lay.pick('title\n', 'Selective title 1.0\n', '\n')
    out += '   %.8f\n' % factor

    for row in t:
        out += '  %18.12f %18.12f %18.12f\n' % tuple(row)

    out += '   ' + '   '.join(names) + '\n'
    out += '   ' + '   '.join(map(str, numbers)) + '\n'

    if c.selective:
        out += lay.pick('Selective dynamics\n', 'selective\n', '  S\n')

    out += lay.pick('Direct\n', 'direct\n', ' D\n')

    expected = dict()

    for name, number in zip(names, numbers):
        for n in range(number):
            x = np.round(g.uniform(-1, 1, 3), 9)
            expected.setdefault(name, []).append(x)
            out += '  %12.9f %12.9f %12.9f' % tuple(x)
            out += '  T T F' * c.selective + '  ' + name * c.extra + '\n'

    if c.extra: # velocities
        out += '\n' + '  0.0  0.0  0.0\n' * sum(numbers)

    with Scratch() as path:
        with open(path('POSCAR'), 'w') as f:
            f.write(out)

        *a, atoms = elphmod.bravais.readPOSCAR(path('POSCAR'))

    if factor > 0:
        ref = factor * t
    else:
        ref = t * (-factor / abs(np.linalg.det(t))) ** (1 / 3)

    close(np.array(a), ref, 'lattice vectors', tol=1e-9)
    equal(list(atoms), list(expected), 'elements')

    for name in expected:
        close(atoms[name], np.array(expected[name]), 'positions', tol=1e-12)

    return sum(numbers) > 1


# --------------------------------------------------------------------------
# lists of expressions

@P.sub('split', quick=4800, seed=seeds, depth=st.integers(0, 3),
    delimiters=st.sampled_from([',{}', ';[]', ',()', '|[]', ' {}', '+{}']),
    blanks=st.booleans())
def split(c):
    g = rng(c.seed)
    sd, od, cd = c.delimiters

    count = [0]

    def expression(depth):
        """Random sequence of words and lists: text and expanded text."""

        text = ''
        values = ['']

        for n in range(int(g.integers(1, 3))):
            if depth and g.integers(2):
                t, v = choices(depth - 1)
                count[0] += 1
                text += od + t + cd
            else:
                t = ''.join(g.choice(list('abxyz019*-_^'), int(g.integers(1,
                    4))))
                v = [t]
                text += t

            values = [x + y for x in values for y in v]

        return text, values

    def choices(depth):
        parts = [expression(depth) for n in range(int(g.integers(1, 4)))]
        glue = sd + ' ' * (c.blanks and sd != ' ')

        return glue.join(t for t, _ in parts), [x for _, v in parts for x in v]

    text, expected = choices(c.depth)

    if len(expected) > 3000:
        return False

    got = list(elphmod.misc.split(text, sd, od, cd)) if c.delimiters != ',{}' \
        else list(elphmod.misc.split(text))

    if count[0]:
        equal(sorted(got), sorted(expected), 'expanded expression',
            expression=text)
    else:
        equal(got, expected, 'expanded expression', expression=text)

    return count[0] > 0
