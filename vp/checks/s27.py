"""S27: Representation of arguments is irrelevant, arguments are left alone."""

import numpy as np

from vp import calls
from vp.harness import Property, check, close, equal, rng, seeds, st

P = Property('S27',
    'Typical calls of 70 public functions with random arguments that are '
    'represented in different ways. Non-trivial: at least one array with '
    'several elements is represented differently.',
    ['Python lists, integers, and read-only arrays are only passed where the '
    'documentation allows for them.'])


def fortran(x):
    return np.asfortranarray(x)


def strided(x):
    y = np.full((*x.shape[:-1], 2 * x.shape[-1]), 77, dtype=x.dtype)
    y[..., ::2] = x
    return y[..., ::2]


def reverse(x):
    i = (slice(None, None, -1),) * x.ndim
    return np.ascontiguousarray(x[i])[i]


def swapped(x):
    i = tuple(range(x.ndim))
    i = (*i[1:], i[0])
    return np.ascontiguousarray(x.transpose(i)).transpose(np.argsort(i))


def inner(x):
    y = np.full([n + 2 for n in x.shape], 55, dtype=x.dtype)
    i = (slice(1, -1),) * x.ndim
    y[i] = x
    return y[i]


def readonly(x):
    y = x.copy()
    y.flags.writeable = False
    return y


def broadcast(x):
    return np.broadcast_to(x, x.shape) # read-only view


variants = [fortran, strided, reverse, swapped, inner, readonly, broadcast]
names = [f.__name__ for f in variants]


def results(fn, args):
    return calls.pack(fn(*args))


def compare(one, two, name, tol=1e-9):
    equal(len(one), len(two), name + ': number of results')

    for a, b in zip(one, two):
        equal(a.shape, b.shape, name + ': shape')

        if a.dtype.kind in 'fc':
            ok = np.isfinite(a)
            equal(ok, np.isfinite(b), name + ': finite')
            close(b[ok], a[ok], name, tol=tol, rtol=tol)
        else:
            equal(a, b, name)


def layout(c):
    function, exact, scale = calls.CALLS[c.call]

    fn, args, dims = function(rng(c.seed))

    values = [a.value for a in args]
    arrays = [i for i, x in enumerate(values) if isinstance(x, np.ndarray)
        and x.ndim]

    base = results(fn, [x.copy() if isinstance(x, np.ndarray) else x for x in
        values])

    new = list(values)
    changed = False

    for i, name in zip(arrays, c.variants * len(arrays)):
        if name is not None:
            new[i] = variants[names.index(name)](values[i])
            changed = changed or values[i].size > 1

    old = [x.copy() if isinstance(x, np.ndarray) else x for x in new]

    found = results(fn, new)

    for a, b in zip(new, old):
        if isinstance(a, np.ndarray):
            check(a.dtype == b.dtype and a.shape == b.shape
                and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'),
                c.call + ': argument modified')

    compare(base, found, c.call)

    # results do not depend on what is done with earlier results:

    first = fn(*new)

    def spoil(x):
        if isinstance(x, np.ndarray):
            if x.flags.writeable:
                x[...] = 99
        elif isinstance(x, (tuple, list)):
            for y in x:
                spoil(y)

    spoil(first)

    for a, b in zip(new, old):
        if isinstance(a, np.ndarray):
            check(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'),
                c.call + ': result shares memory with argument')

    compare(base, results(fn, new), c.call + ' (third time)')

    return changed


def numbers(c):
    """Integers instead of real numbers, lists instead of arrays."""

    function, exact, scale = calls.CALLS[c.call]

    fn, args, dims = function(rng(c.seed))

    values = [a.value for a in args]

    candidates = [i for i, a in enumerate(args) if isinstance(a.value,
        np.ndarray) and (a.lists if c.kind == 'list' else a.value.dtype.kind
        == 'f' and np.all(np.isfinite(a.value)) or a.value.dtype.kind == 'i'
        and c.kind == 'int32')]

    if not candidates:
        return False

    i = candidates[c.which % len(candidates)]
    x = values[i]

    one, two = list(values), list(values)

    if c.kind == 'list':
        two[i] = (list(map(tuple, x.tolist())) if c.tuples and x.ndim == 2 else
            x.tolist())
    else:
        if x.dtype.kind == 'f':
            x = np.round(3 * x)

        one[i] = x.copy()

        two[i] = x.astype(np.int32 if c.kind == 'int32' else int)

    try:
        base = results(fn, one)
    except (Exception, SystemExit):
        return False # not a valid argument

    compare(base, results(fn, two), '%s with %s' % (c.call, c.kind))

    return x.size > 1


for group, members in calls.GROUPS.items():
    P.sub(group, quick=80 * len(members), seed=seeds,
        call=st.sampled_from(members), variants=st.lists(st.sampled_from([None]
        + names), min_size=1, max_size=5))(layout)

    P.sub(group + '_numbers', quick=60 * len(members), seed=seeds,
        call=st.sampled_from(members), which=st.integers(0, 5),
        kind=st.sampled_from(['int', 'int32', 'list']),
        tuples=st.booleans())(numbers)
