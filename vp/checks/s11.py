"""S11: Occupation functions form consistent families."""

import mpmath
import numpy as np

import elphmod

from vp.harness import (Property, check, close, equal, rng, seeds, st, ints)

P = Property('S11',
    'Arguments of all magnitudes (dense around the Fermi level, where steps '
    'switch, and up to 1e60), scalars, integers, arrays of any shape. '
    'Non-trivial: the occupation at one of the arguments is fractional.',
    ['Methfessel-Paxton order up to 6, shifts of multi-step functions up to '
    '12.'])

o = elphmod.occupations

mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
mp.dps = 40


def r_fd(x):
    if x > 0:
        t = mp.exp(-x)
        return t / (1 + t)
    return 1 / (1 + mp.exp(x))


def r_gauss(x):
    return mp.erfc(x) / 2


def r_mv(x):
    y = x + 1 / mp.sqrt(2)
    return mp.erfc(y) / 2 + mp.exp(-y * y) / mp.sqrt(2 * mp.pi)


def r_mp(N):
    def f(x):
        y = mp.erfc(x) / 2
        for n in range(1, N + 1):
            A = (-1) ** n / (mp.factorial(n) * mp.mpf(4) ** n * mp.sqrt(mp.pi))
            y += A * mp.hermite(2 * n - 1, x) * mp.exp(-x * x)
        return y
    return f


def r_lorentz(x):
    return mp.mpf(1) / 2 - mp.atan(x / mp.pi) / mp.pi


def r_double(d):
    return lambda x: (r_fd(x - d) + r_fd(x + d)) / 2


def r_two(d):
    return lambda x: r_fd(x + d) if x < 0 else r_fd(x - d)


families = ['fd', 'gauss', 'mv', 'mp', 'lorentz', 'double', 'two']

names = dict(
    fd=['fermi-dirac', 'f-d', 'fd'],
    gauss=['gaussian', 'gauss'],
    mv=['marzari-vanderbilt', 'cold', 'm-v', 'mv'],
    mp=['methfessel-paxton', 'm-p', 'mp'],
    lorentz=['lorentz', 'lorentzian'],
    heaviside=['heaviside'])

functions = dict(fd='fermi_dirac', gauss='gauss', mv='marzari_vanderbilt',
    mp='methfessel_paxton', lorentz='lorentz', double='double_fermi_dirac',
    two='two_fermi_dirac', heaviside='heaviside')


def family(name, order, d):
    f = getattr(o, functions[name])

    o.methfessel_paxton.order = order if name == 'mp' else 1
    o.double_fermi_dirac.d = d if name == 'double' else 5.0
    o.two_fermi_dirac.d = d if name == 'two' else 5.0

    r = dict(fd=r_fd, gauss=r_gauss, mv=r_mv, mp=r_mp(order),
        lorentz=r_lorentz, double=r_double(d), two=r_two(d))[name]

    return f, r


arg = st.one_of(
    st.floats(-8, 8), st.floats(-40, 40), st.floats(-0.01, 0.01),
    st.floats(-800, 800), st.integers(-20, 20), st.integers(-2000, 2000),
    st.floats(-1e60, 1e60, allow_subnormal=False),
    st.sampled_from([0, 0.0, 1, -1, 709.0, -709.0, 710.0, 745.2, -745.2, 1e4,
        -1e4, 10 ** 6, -10 ** 6]))

def tame(x):
    """Denormalised arguments are of no interest."""
    return 0.0 if isinstance(x, float) and abs(x) < 1e-12 else x

orders = st.integers(1, 6)
ds = st.floats(0.0, 12.0).map(lambda x: round(x, 2))


def derivative(r, x, n, at_kink=False):
    if abs(x) > 1e5:
        return 0.0 # all families have decayed to less than 1e-10
    x = mp.mpf(x)
    with mp.workdps(60):
        return float(mp.diff(r, x, n, h=mp.mpf(10) ** -18))


@P.sub('values', quick=8390, fam=st.sampled_from(families), order=orders,
    d=ds, x=st.lists(arg, min_size=1, max_size=4),
    form=st.sampled_from(['scalar', 'array', '2d', 'numpy scalar', 'strided']))
def values(c):
    f, r = family(c.fam, c.order, c.d)

    xs = [tame(x) for x in c.x]

    if c.fam == 'two':
        xs = [x for x in xs if abs(x) > 1e-9]

    if c.fam == 'mp':
        xs = [min(max(x, -1e8), 1e8) for x in xs]

    if not xs:
        return False

    ref = np.array([[float(r(mp.mpf(x))) if abs(x) < 1e8 else
        float(x < 0) if c.fam != 'lorentz' else float(r_lorentz(mp.mpf(x)))
        for x in xs],
        [-derivative(r, x, 1) for x in xs],
        [-derivative(r, x, 2) for x in xs]])

    for i, g in enumerate((f, f.delta, f.delta_prime)):
        message = '%s of %s at %s' % (['step', 'delta', 'delta prime'][i],
            c.fam, xs)

        if c.form == 'scalar':
            for x, y in zip(xs, ref[i]):
                z = g(x)
                check(np.ndim(z) == 0, message + ': not a scalar')
                close(z, y, message, tol=2e-10)
        elif c.form == 'numpy scalar':
            for x, y in zip(xs, ref[i]):
                close(g(np.float64(x)), y, message, tol=2e-10)
                close(g(np.array(float(x))), y, message, tol=2e-10)
        else:
            x = np.array(xs)
            y = ref[i]
            if c.form == '2d':
                x = np.array([x, x[::-1]])
                y = np.array([y, y[::-1]])
            elif c.form == 'strided':
                x = np.repeat(x, 2)[::2]
            old = x.copy()
            close(g(x), y, message, tol=2e-10)
            equal(x, old, 'argument modified')

    return bool(np.any((ref[0] > 1e-8) & (ref[0] < 1 - 1e-8)))


@P.sub('relations', quick=5680, fam=st.sampled_from(families + ['heaviside']),
    order=orders, d=ds, seed=seeds, scale=st.sampled_from([0.1, 1, 5, 30,
    1e3]))
def relations(c):
    f = family(c.fam if c.fam != 'heaviside' else 'fd', c.order, c.d)[0]

    if c.fam == 'heaviside':
        f = o.heaviside

    g = rng(c.seed)
    x = g.uniform(-1, 1, 20) * c.scale
    x[np.abs(x) < 1e-6] = 0.5

    if c.fam != 'mv':
        close(f(x) + f(-x), np.ones(20), 'complement')
        close(f.delta(x), f.delta(-x), 'even')
        close(f.delta_prime(x), -f.delta_prime(-x), 'odd')

    # normalization and fundamental theorem:

    if c.fam not in ('heaviside',):
        for _ in range(5):
            a = g.uniform(-6, 6) * g.choice([0.2, 1, 3])
            b = a + g.uniform(-1.5, 1.5)

            if c.fam == 'two':
                if a * b <= 0:
                    continue

            t, w = np.polynomial.legendre.leggauss(40)
            t = a + (b - a) * (t + 1) / 2
            w = w * (b - a) / 2

            close(f(a) - f(b), np.sum(w * f.delta(t)), 'integral of delta',
                tol=1e-9, interval=(a, b))
            close(f.delta(b) - f.delta(a), np.sum(w * f.delta_prime(t)),
                'integral of delta prime', tol=1e-9, interval=(a, b))

            if hasattr(f, 'entropy') and not (c.fam == 'mp' and c.order != 1):
                close(f.entropy(b) - f.entropy(a), -np.sum(w * t * f.delta(t)),
                    'entropy: ds = x df', tol=1e-9, interval=(a, b))

    for big in (1e3, 1e5, 1e8, 10 ** 4):
        small = big ** -1 if c.fam == 'lorentz' else 1e-12

        for y in big, np.array([big, big + 1]):
            close(f(-y), np.ones(np.shape(y)), 'limit', tol=2 * small)
            close(f(+y), np.zeros(np.shape(y)), 'limit', tol=2 * small)

            for s in -1, 1:
                close(f.delta(s * y), np.zeros(np.shape(y)), 'limit of delta',
                    tol=2 * small)
                close(f.delta_prime(s * y), np.zeros(np.shape(y)),
                    'limit of delta prime', tol=2 * small)

                if (hasattr(f, 'entropy')
                        and not (c.fam == 'mp' and c.order != 1)):
                    close(f.entropy(s * y), np.zeros(np.shape(y)),
                        'limit of entropy', tol=1e-12)

    if c.fam == 'mp' and c.order != 1: # not implemented or exact
        try:
            S = f.entropy(x)
        except NotImplementedError:
            pass
        else:
            t, w = np.polynomial.legendre.leggauss(200)

            for y, Sy in zip(x, S):
                if abs(y) < 8:
                    z = 0.5 * (y - 12) + 0.5 * (y + 12) * t
                    close(Sy, -0.5 * (y + 12) * np.sum(w * z * f.delta(z)),
                        'entropy of higher order', tol=1e-8)

    if c.fam == 'heaviside':
        equal(f(x), (x < 0).astype(float), 'step')
        equal(f(0.0), 0.5, 'step at zero')
        equal(f.delta(x), np.zeros(20), 'delta')

        for zero in (0, 0.0, np.array([0.0]), np.array([0]), np.int64(0)):
            check(np.all(f.delta(zero) == np.inf), 'delta at zero')

        equal(f.delta(np.array([1, 0, -3])), np.array([0, np.inf, 0]),
            'delta of integers')
        equal(f.delta(7), 0, 'delta of integer')
        equal(f.delta_prime(np.array([1, 0, -3])), np.array([0, -np.inf, 0]),
            'derivative of delta of integers')
        equal(f.delta_prime(np.array([0.0, -0.0])), np.array([-np.inf,
            np.inf]), 'derivative of delta at zero')
        equal(f.entropy(x), np.zeros(20), 'entropy')

    return True


@P.sub('complex', quick=4800, seed=seeds, scale=st.sampled_from([0.1, 1, 5,
    100]))
def complex_(c):
    """Fermi and Bose functions in the complex plane."""

    g = rng(c.seed)
    z = g.uniform(-1, 1, 6) * c.scale + 1j * g.uniform(-8, 8, 6)

    # stay away from poles

    for n in range(-9, 10):
        z = z[np.abs(z - 1j * np.pi * n) > 0.05]

    old = z.copy()

    for name, f, r in (
            ('fd', o.fermi_dirac, lambda x: 1 / (mp.exp(x) + 1)),
            ('delta', o.fermi_dirac.delta,
                lambda x: 1 / (2 + mp.exp(x) + mp.exp(-x))),
            ('delta prime', o.fermi_dirac.delta_prime,
                lambda x: (mp.exp(-x) - mp.exp(x)) / (2 + mp.exp(x)
                    + mp.exp(-x)) ** 2),
            ('be', o.bose_einstein, lambda x: 1 / (mp.exp(x) - 1))):

        close(f(z), np.array([complex(r(mp.mpc(x))) for x in z]),
            'complex ' + name, tol=1e-10)
        equal(z, old, 'argument modified')

        for x in z[:2]:
            close(f(x), complex(r(mp.mpc(x))), 'complex scalar ' + name,
                tol=1e-10)

    x = g.uniform(0.01, 1, 5) * c.scale
    x = np.append(x, [800.0, 1e6])

    close(o.bose_einstein(x), np.array([float(1 / mp.expm1(mp.mpf(y)))
        for y in x]), 'Bose-Einstein', rtol=1e-10, tol=0.0)
    close(o.bose_einstein(x) + o.bose_einstein(-x), -np.ones(len(x)),
        'Bose-Einstein symmetry', tol=1e-8)

    return len(z) > 0


@P.sub('matsubara', quick=720, seed=seeds, nmats=st.sampled_from([100, 1000,
    3000]), scale=st.sampled_from([0.5, 3, 10]))
def matsubara(c):
    g = rng(c.seed)
    x = g.uniform(-1, 1, (2, 3)) * c.scale

    f = o.fermi_dirac_matsubara

    M = 2 * np.pi * c.nmats # remainder of sum over 1 / nu^n

    close(f(x, nmats=c.nmats), o.fermi_dirac(x), 'Matsubara sum',
        tol=2 * c.scale / (np.pi * M))
    close(f.delta(x, nmats=c.nmats), o.fermi_dirac.delta(x),
        'Matsubara sum of delta', tol=2 / (np.pi * M))
    close(f.delta_prime(x, nmats=c.nmats), o.fermi_dirac.delta_prime(x),
        'Matsubara sum of delta prime', tol=20 * c.scale / M ** 3 + 1e-12)

    # finite sums themselves:

    nu = (2 * np.arange(c.nmats) + 1) * np.pi

    ref = 0.5 - np.sum(2 * x[..., None] / (nu ** 2 + x[..., None] ** 2), -1)

    close(f(x, nmats=c.nmats), ref, 'finite Matsubara sum', tol=1e-11)

    if c.nmats == 1000:
        close(f(x), ref, 'default number of Matsubara frequencies', tol=1e-11)
        close(f(float(x[0, 0])), ref[0, 0], 'scalar', tol=1e-11)

    return True


@P.sub('names', quick=2400, fam=st.sampled_from(sorted(names)),
    i=st.integers(0, 3), upper=st.integers(0, 2 ** 20), extra=st.booleans())
def names_(c):
    alias = names[c.fam][c.i % len(names[c.fam])]
    alias = ''.join(x.upper() if c.upper >> n & 1 else x
        for n, x in enumerate(alias))

    f = getattr(o, functions[c.fam])

    check(o.smearing(alias) is f, 'wrong smearing', alias=alias)
    check(o.smearing(f) is f, 'function not passed through')
    check(o.smearing() is o.gauss, 'wrong default')

    if c.extra:
        check(o.smearing(smearing=alias, degauss=0.1, nk1=3) is f,
            'wrong smearing', alias=alias)

    return True


@P.sub('hermite', quick=720, seed=seeds, N=st.integers(1, 12))
def hermite(c):
    x = rng(c.seed).uniform(-4, 4, 3)

    H = list(o.hermite_polynomials(x, N=c.N))

    equal(len(H), c.N, 'number of Hermite polynomials')

    for n in range(c.N):
        close(H[n], np.array([float(mp.hermite(n, mp.mpf(y))) for y in x]),
            'Hermite polynomial', rtol=1e-10, tol=1e-12)

    return c.N > 2
