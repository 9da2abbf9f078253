"""S28: Results scale with the units of the arguments."""

import numpy as np

from vp import calls
from vp.harness import Property, check, close, equal, rng, seeds, st

P = Property('S28',
    'Typical calls of 70 public functions with random arguments, where all '
    'energies, lengths, and couplings are multiplied by powers of two (which '
    'does not cause any additional rounding). Non-trivial: at least one '
    'argument and one result are scaled.',
    ['Tolerances, broadenings, and temperatures, the default values of which '
    'assume certain units, are scaled, too.'])

energies = couplings = [-30, -12, -5, 0, 0, 3, 11, 24]
lengths = [-4, -2, 0, 0, 3, 6]


def factor(dim, units):
    return np.prod([2.0 ** (n * p) for n, p in zip(dim, units)])


def scaled(x, dim, units):
    if x is None or not any(dim):
        return x

    f = factor(dim, units)

    return x * f if f != 1 else x


def expand(result, dims):
    """List of all results with dimensions."""

    if isinstance(dims, list):
        result = list(result)
        equal(len(result), len(dims), 'number of results')
        return [y for x, dim in zip(result, dims) for y in expand(x, dim)]

    return [(x, dims) for x in calls.pack(result)]


def units(c):
    function, exact, scale = calls.CALLS[c.call]

    fn, args, dims = function(rng(c.seed))

    if dims is None:
        return False

    if scale is not True and min(c.units) < scale:
        return False

    def evaluate(units):
        result = fn(*[scaled(a.value.copy() if isinstance(a.value, np.ndarray)
            else a.value, a.dim, units) for a in args])
        return expand(result, dims)

    one = evaluate((0, 0, 0))
    two = evaluate(c.units)

    equal(len(one), len(two), c.call + ': number of results')

    tol = 1e-10 if exact else 1e-7

    for (a, dim), (b, _) in zip(one, two):
        equal(a.shape, b.shape, c.call + ': shape')

        if a.dtype.kind in 'fc':
            b = b / factor(dim, c.units)
            ok = np.isfinite(a)
            equal(ok, np.isfinite(b), c.call + ': finite')

            if ok.any():
                size = abs(a[ok]).max() or 1.0
                close(b[ok] / size, a[ok] / size, c.call, tol=tol,
                    units=c.units)
        else:
            check(a.dtype.kind not in 'iub' or not any(dim) or not a.any(),
                c.call + ': integer result with unit')
            equal(a, b, c.call, units=c.units)

    return any(any(a.dim) and factor(a.dim, c.units) != 1 for a in args)


for group, members in calls.GROUPS.items():
    members = [name for name in members if calls.CALLS[name][2]]

    P.sub(group, quick=120 * len(members), seed=seeds,
        call=st.sampled_from(members), units=st.tuples(*map(
        st.sampled_from, [energies, lengths, couplings])))(units)
