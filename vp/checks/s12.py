"""S12: The Fermi level conserves the particle number."""

import numpy as np

import elphmod

from vp.harness import (Property, check, close, equal, rng, seeds, st, ints)

P = Property('S12',
    'Random spectra (any array shape, degenerate or gapped), fillings, '
    'temperatures, smearing functions, tolerances, initial guesses. '
    'Non-trivial: at least two different energies and a partially occupied '
    'system.',
    ['Continuous smearing functions; the simple solver with a damping factor '
    'for which its iteration is contracting, as documented.'])

o = elphmod.occupations

monotonic = {'fd', 'gauss', 'lorentz', 'double'}


def smearing(c):
    o.double_fermi_dirac.d = 5.0
    o.methfessel_paxton.order = 1

    if c.f == 'double':
        o.double_fermi_dirac.d = c.d
        return o.double_fermi_dirac

    return c.f if c.string else o.smearing(c.f)


# occupations independent of the library

from scipy.special import erfc, expit


def occupation(c, x):
    if c.f == 'fd':
        return expit(-x)
    if c.f == 'gauss':
        return erfc(x) / 2
    if c.f == 'lorentz':
        return 0.5 - np.arctan(x / np.pi) / np.pi
    if c.f == 'mp':
        return erfc(x) / 2 - x * np.exp(-x * x) / (2 * np.sqrt(np.pi))
    if c.f == 'cold':
        y = x + np.sqrt(0.5)
        return erfc(y) / 2 + np.exp(-y * y) / np.sqrt(2 * np.pi)

    return (expit(-x - c.d) + expit(-x + c.d)) / 2


def energies(c):
    g = rng(c.seed)

    shape = tuple(c.shape)
    e = g.uniform(-1, 1, shape)

    if c.kind == 'gap':
        e += 2.0 * np.sign(e)
    elif c.kind == 'degenerate':
        e = np.round(2 * e) / 2
    elif c.kind == 'narrow':
        e *= 0.01
    elif c.kind == 'flat':
        e[...] = e.flat[0]
    elif c.kind == 'sorted':
        e = np.sort(e)
    elif c.kind == 'ints':
        e = np.round(3 * e)

    return g, e


@P.sub('level', quick=1500, limit=100, seed=seeds,
    shape=st.one_of(st.tuples(st.integers(1, 12), st.integers(1, 4)),
        st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 3)),
        st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 2),
            st.integers(1, 2)), st.tuples(st.integers(1, 9))),
    kind=st.sampled_from(['random', 'gap', 'degenerate', 'narrow', 'flat',
        'sorted', 'ints']),
    f=st.sampled_from(['fd', 'fd', 'gauss', 'mp', 'cold', 'lorentz',
        'double']), d=st.sampled_from([0.0, 1.0, 3.0, 5.0]),
    string=st.booleans(),
    kT=st.sampled_from([0.004, 0.02, 0.1, 0.5]),
    filling=st.one_of(st.floats(0.02, 0.98), st.sampled_from([0.5, 0.25])),
    mu=st.one_of(st.none(), st.floats(-3, 3)),
    tol=st.sampled_from([None, 1e-3, 1e-6]),
    shift=st.floats(-5, 5), scale=st.sampled_from([0.1, 13.6, 27.2]))
def level(c):
    g, e = energies(c)
    f = smearing(c)

    nb = e.shape[-1]
    nk = e.size // nb
    n = 2 * nb * c.filling

    # Convergence is logarithmically slow in gaps, thus no small tolerance.

    tol = c.tol if c.tol is not None and c.kT > 0.05 else 1e-5
    k = dict(tol=tol) if c.tol is not None else {}

    if k and c.kT < 0.05:
        tol = k['tol'] = 1e-3

    def number(mu, e, kT):
        return 2 * occupation(c, (e - mu) / kT).sum() / nk

    def verify(mu, e, kT, message):
        check(np.ndim(mu) == 0 and np.isfinite(mu), message
            + ': no Fermi level', mu=mu)
        N = number(mu, e, kT)
        check(abs(N - n) <= tol * (1 + 1e-6) + 1e-12, message
            + ': wrong number of electrons', N=N, n=n, mu=mu)

    old = e.copy()

    mu = o.find_Fermi_level(n, e, c.kT, f, c.mu, **k)
    equal(e, old, 'energies modified')
    verify(mu, e, c.kT, 'Fermi level')

    verify(o.find_Fermi_level(n=n, e=e, kT=c.kT, f=f, **k), e, c.kT,
        'default guess')

    e2 = g.permutation(e.ravel()).reshape(e.shape)
    verify(o.find_Fermi_level(n, e2, c.kT, f, c.mu, **k), e, c.kT,
        'permuted energies')

    mu2 = o.find_Fermi_level(n, e + c.shift, c.kT, f,
        None if c.mu is None else c.mu + c.shift, **k)
    verify(mu2 - c.shift, e, c.kT, 'shifted energies')

    mu3 = o.find_Fermi_level(n, e * c.scale, c.kT * c.scale, f,
        None if c.mu is None else c.mu * c.scale, **k)
    verify(mu3 / c.scale, e, c.kT, 'scaled energies')

    # repeating all k points leaves number per unit cell unchanged:

    e4 = np.concatenate([e.reshape((nk, nb))] * 2)
    verify(o.find_Fermi_level(n, e4, c.kT, f, c.mu, **k), e, c.kT,
        'repeated k points')

    if c.f == 'fd' and c.kT == 0.1:
        tol = max(tol, 1e-5)
        verify(o.find_Fermi_level(n, e, 0.025), e, 0.025, 'default settings')

    return len(set(e.flat)) > 1


@P.sub('simple', quick=3600, limit=100, seed=seeds,
    shape=st.one_of(st.tuples(st.integers(2, 12), st.integers(1, 4)),
        st.tuples(st.integers(1, 4), st.integers(2, 4), st.integers(1, 3))),
    kind=st.sampled_from(['random', 'degenerate', 'narrow', 'flat', 'sorted']),
    f=st.sampled_from(['fd', 'fd', 'gauss', 'lorentz', 'double']),
    d=st.sampled_from([0.0, 1.0, 2.0]), string=st.booleans(),
    kT=st.floats(0.2, 0.6), filling=st.floats(0.2, 0.8),
    mu=st.one_of(st.none(), st.floats(-0.3, 1.0)),
    damp=st.sampled_from([None, 0.02, 0.05]),
    tol=st.sampled_from([None, 1e-7]))
def simple(c):
    g, e = energies(c)
    f = smearing(c)

    nb = e.shape[-1]
    nk = e.size // nb
    n = 2 * nb * c.filling

    tol = 1e-5 if c.tol is None else c.tol
    k = {} if c.tol is None else dict(tol=c.tol)

    if c.damp is not None:
        k['damp'] = c.damp

    old = e.copy()

    guess = c.mu

    if guess is not None:
        N = 2 * occupation(c, (e - guess) / c.kT).sum() / nk

        if N < 0.1 * n:
            guess = None # first step would be huge

    mu = o.find_Fermi_level_simple(n, e, c.kT, f, guess, **k)

    equal(e, old, 'energies modified')

    N = 2 * occupation(c, (e - mu) / c.kT).sum() / nk
    check(abs(N - n) <= tol * (1 + 1e-6) + 1e-12,
        'wrong number of electrons', N=N, n=n, mu=mu)

    k.pop('damp', None)

    ref = o.find_Fermi_level(n, e, c.kT, f, c.mu, **k)

    if c.f in monotonic and c.f != 'double':
        # both within tolerance of the unique solution

        h = 1e-4
        slope = (2 * occupation(c, (e - mu - h) / c.kT).sum() / nk
            - 2 * occupation(c, (e - mu + h) / c.kT).sum() / nk) / (2 * h)

        check(abs(mu - ref) * slope <= 3 * tol + 1e-9, 'solvers disagree',
            simple=mu, other=ref)

    return len(set(e.flat)) > 1
