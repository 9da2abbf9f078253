"""Sub-checks that are only executed by MPI pools (see S22)."""

import os
import tempfile

import numpy as np

import elphmod
import elphmod.plot

from vp import gen
from vp.harness import Property, check, close, equal, raises, rng, seeds, st

P = Property('M', '')

MPI = elphmod.MPI


def same(x, what):
    """Is value the same on all processes?"""

    everywhere = MPI.comm.allgather(x)

    for other in everywhere:
        equal(x, other, what)


def group(c):
    """Communicator of all or some processes."""

    if c.split == 'all':
        return MPI.comm
    if c.split == 'self':
        return MPI.I
    return MPI.comm.Split(MPI.comm.rank % 2, key=MPI.comm.rank)


splits = st.sampled_from(['all', 'all', 'half', 'self'])


@P.sub('distribute', size=st.integers(0, 40), split=splits,
    chunks=st.one_of(st.none(), st.integers(1, 12)), default=st.booleans())
def distribute(c):
    comm = group(c)

    options = dict() if c.split == 'all' and c.default else dict(comm=comm)

    sizes, bounds = MPI.distribute(c.size, bounds=True, chunks=c.chunks,
        **options)

    n = c.chunks or comm.size

    equal(sizes.shape, (n,), 'number of chunks')
    equal(bounds.shape, (n + 1,), 'number of bounds')
    equal(int(sizes.sum()), c.size, 'all work is distributed')
    check(sizes.min() >= 0 and np.ptp(sizes) <= 1, 'even distribution',
        sizes=sizes)
    equal(np.diff(bounds), sizes, 'bounds')
    equal(int(bounds[0]), 0, 'first task')

    equal(MPI.distribute(c.size, chunks=c.chunks, **options), sizes,
        'sizes only')

    for other in comm.allgather(sizes):
        equal(other, sizes, 'same on all processes')

    if c.chunks is None:
        mine = list(range(*bounds[comm.rank:comm.rank + 2]))
        equal(sum(comm.allgather(mine), []), list(range(c.size)),
            'each task is done once and in order')

    return c.size > 0


@P.sub('matrix', size=st.integers(1, 12))
def matrix(c):
    col, row = MPI.matrix(c.size)
    rank = MPI.comm.rank
    n = MPI.comm.size

    # tasks are dealt out to columns; processes of a column share them:

    equal(col.allgather(rank), list(range(rank % c.size, n, c.size)), 'column')
    equal(row.allgather(rank), list(range(rank - rank % c.size,
        min(n, rank - rank % c.size + c.size))), 'row')
    equal(row.rank, rank % c.size, 'rank in row')
    equal(col.rank, rank // c.size, 'rank in column')

    return c.size > 1


@P.sub('shm_split', split=splits, shared=st.booleans())
def shm_split(c):
    comm = group(c)
    node, images = MPI.shm_split(comm, shared_memory=c.shared)

    equal(node.rank == images.rank == 0, comm.rank == 0, 'first process')

    places = comm.allgather((images.rank, node.rank))

    equal(len(set(places)), comm.size, 'places are unique')

    nodes = comm.allgather(tuple(node.allgather(comm.rank)))

    equal(sorted(sum(set(nodes), ())), list(range(comm.size)), 'partition')

    for ranks in set(nodes):
        equal(list(ranks), sorted(ranks), 'ranks on node are sorted')

    if not c.shared:
        equal(node.size, 1, 'no shared memory')
        equal(images.size, comm.size, 'no shared memory')

    for ranks in comm.allgather(tuple(images.allgather(comm.rank))):
        equal(list(ranks), sorted(ranks), 'ranks of images are sorted')

    return True


kinds = st.sampled_from(['f8', 'f4', 'c16', 'i8', 'i4', 'u1', 'b1'])
shapes = st.lists(st.integers(0, 5), min_size=1, max_size=4)


def values(g, shape, dtype):
    dtype = np.dtype(dtype)

    if dtype.kind == 'b':
        return g.integers(0, 2, shape).astype(bool)
    if dtype.kind in 'iu':
        return g.integers(0, 100, shape).astype(dtype)
    if dtype.kind == 'c':
        return gen.cplx(g, shape)
    return g.standard_normal(shape).astype(dtype)


@P.sub('shared_array', seed=seeds, split=splits, shared=st.booleans(),
    single=st.booleans(), dtype=kinds, shape=shapes, number=st.booleans(),
    times=st.integers(1, 3))
def shared_array(c):
    g = rng(c.seed)
    comm = group(c)

    shape = c.shape[0] if c.number else tuple(c.shape)

    node, images, array = MPI.shared_array(shape, dtype=c.dtype,
        shared_memory=c.shared, single_memory=c.single, comm=comm)

    equal(array.dtype, np.dtype(c.dtype), 'data type')
    check(isinstance(array, np.ndarray), 'type')

    if c.single and comm.rank:
        equal(array.size, 0, 'memory on one process only')
    else:
        equal(array.shape, (shape,) if c.number else shape, 'shape')

    for time in range(c.times):
        ref = values(g, shape, c.dtype)

        if comm.rank == 0:
            array[...] = ref

        if node.rank == 0:
            images.Bcast(array)

        comm.Barrier()

        if not c.single or comm.rank == 0:
            equal(array, ref, 'data')

        comm.Barrier()

    if c.shared and not c.single and array.size:
        # memory is common to the processes of a node and to no other

        ranks = node.allgather(comm.rank)

        if node.rank == node.size - 1:
            array[...] = values(rng(comm.rank), shape, c.dtype)

        comm.Barrier()

        equal(array, values(rng(ranks[-1]), shape, c.dtype), 'shared data')

        comm.Barrier()

    return array.size > 1


@P.sub('SharedArray', seed=seeds, shared=st.booleans(), dtype=kinds,
    shape=shapes)
def SharedArray(c):
    ref = values(rng(c.seed), tuple(c.shape), c.dtype)

    array = MPI.SharedArray(tuple(c.shape), dtype=c.dtype,
        shared_memory=c.shared)

    equal(array.shape, ref.shape, 'shape')

    if MPI.comm.rank == 0:
        array[...] = ref

    array.Bcast()

    equal(np.array(array), ref, 'data')

    part = array[:1] # attributes are inherited

    equal(part.node.size, array.node.size, 'node of part')
    equal(part.images.rank, array.images.rank, 'images of part')

    return array.size > 1


@P.sub('load', seed=seeds, shared=st.booleans(), dtype=kinds, shape=shapes,
    order=st.sampled_from(['C', 'F']), scalar=st.booleans(),
    missing=st.booleans(), txt=st.booleans(), split=splits)
def load(c):
    g = rng(c.seed)
    comm = group(c)
    shape = () if c.scalar and not c.txt else tuple(c.shape)
    dtype = c.dtype

    if c.txt:
        dtype = 'f8'
        shape = tuple(2 + x for x in shape[:2])

    ref = np.asarray(values(g, shape, dtype), order=c.order)

    path = os.path.join(tempfile.mkdtemp(), 'data')

    if not c.missing:
        if c.txt:
            np.savetxt(path, ref)
        else:
            with open(path, 'wb') as data:
                np.save(data, ref)

    array = MPI.load(path, shared_memory=c.shared, txt=c.txt, comm=comm)

    if c.missing:
        equal(array.size, 0, 'missing file')
    else:
        equal(array.shape, ref.shape, 'shape')
        equal(array.dtype, ref.dtype, 'data type')

        if c.txt:
            close(array, ref, 'data')
        else:
            equal(np.array(array), ref, 'data')

    return ref.size > 1


@P.sub('Buffer', seed=seeds, exists=st.booleans(), none=st.booleans(),
    times=st.integers(1, 3))
def Buffer(c):
    g = rng(c.seed)
    path = os.path.join(tempfile.mkdtemp(), 'buffer')
    buffer = MPI.Buffer(None if c.none else path)

    equal(buffer.get(), None, 'no data')

    for time in range(c.times):
        obj = dict(x=float(g.uniform()), y=[1, 'a', None, 2j], t=time)

        buffer.set(obj)

        equal(buffer.get(), None if c.none else obj, 'data')

    equal(MPI.Buffer(None if c.none else path).get(), None if c.none else obj,
        'data in new object')

    return True


@P.sub('exit', message=st.text('abc', max_size=3))
def leave(c):
    """All processes end."""

    raises(SystemExit, elphmod.MPI.info, c.message, error=True)

    MPI.info(c.message)

    return True


@P.sub('coupling', seed=seeds, size=st.integers(1, 2), nat=st.integers(1, 2),
    kind=st.sampled_from(['short', 'short', 'lr', 'quad']), nRg=st.integers(1, 4),
    nRk=st.integers(1, 4), divide_mass=st.booleans(), ops=st.lists(st.tuples(
    st.sampled_from(['all', 'self', 'half']), st.integers(0, 3),
    st.integers(0, 3), st.booleans(), st.booleans()), min_size=1, max_size=6))
def coupling(c):
    """Different groups of processes evaluate different points in turn."""

    from vp.checks import s02

    g = rng(c.seed)

    elph = s02.small_elph(c, g)

    points = [(0.0, 0.0, 0.0), (np.pi, 0.0, 0.0), (0.4, 1.3, 0.0),
        (-2.0, 0.7, 0.0)]

    for split, q, k, own, broadcast in c.ops:
        comm = dict(all=MPI.comm, self=MPI.I,
            half=MPI.comm.Split(MPI.comm.rank % 2, key=MPI.comm.rank))[split]

        shift = 0

        if own:
            shift = dict(all=0, self=MPI.comm.rank, half=MPI.comm.rank % 2)[
                split]

        q = points[(q + shift) % 4]
        k = points[k]

        G = elph.g(*q, *k, comm=comm, broadcast=broadcast)

        if broadcast or comm.rank == 0:
            close(G, s02.coupling(elph, q, k), 'coupling', op=split)
        else:
            equal(G, None, 'result on first process only')

    return len(c.ops) > 1


@P.sub('displacements', seed=seeds, amplitude=st.sampled_from([0.0, 0.1, 3.0]))
def displacements(c):
    """Random displacements are the same on all processes."""

    from vp.checks import s18

    g = rng(c.seed)

    driver = s18.make(type(c)(kind='dense', nel=1, name='fd'), g, 2)

    driver.random_displacements(c.amplitude)

    same(driver.u.copy(), 'displacements')

    check(abs(driver.u).max() <= 2 * c.amplitude, 'amplitude', u=driver.u)
    close(driver.u.reshape((-1, 3)).sum(axis=0), np.zeros(3), 'center of mass',
        tol=1e-12)

    E = driver.free_energy(show=False)

    for other in MPI.comm.allgather(E):
        close(E, other, 'energy', tol=1e-12)

    return c.amplitude > 0


@P.sub('maps', seed=seeds, N=st.integers(1, 4), resolution=st.integers(2, 8),
    complex=st.booleans(), kind=st.sampled_from(['plot', 'double_plot',
    'toBZ']))
def maps(c):
    """Images on the first process only."""

    g = rng(c.seed)
    data = g.normal(size=(c.N, c.N))

    if c.complex:
        data = data + 1j * g.normal(size=(c.N, c.N))

    for broadcast in True, False:
        k = dict() if broadcast else dict(broadcast=False)

        if c.kind == 'plot':
            x = elphmod.plot.plot(data, resolution=c.resolution, **k)
        elif c.kind == 'double_plot':
            x = elphmod.plot.double_plot(data[np.newaxis], [(0.0, 0.0)], 1,
                resolution=c.resolution, **k)
        else:
            x = elphmod.plot.toBZ(data, points=c.resolution, **k)

        if broadcast:
            same(x, 'image')
            ref = x
        elif MPI.comm.rank == 0:
            equal(x, ref, 'image on first process')
        else:
            equal(x, None, 'image on other processes')

    return c.N > 1


@P.sub('grid', seed=seeds, shared=st.booleans(), shape=st.tuples(*[st.integers(
    1, 6)] * 3), calls=st.integers(1, 3))
def grid(c):
    """Points of real-space grid, possibly in shared memory."""

    g = rng(c.seed)

    for _ in range(c.calls):
        r0 = g.normal(size=3)
        a = g.normal(size=(3, 3))
        r = elphmod.misc.real_space_grid(c.shape, r0, a,
            shared_memory=c.shared)
        equal(r.shape, (*c.shape, 3), 'shape')

        for n in reversed(list(np.ndindex(*c.shape))):
            close(r[n], r0 + sum(i / (N - 1) * x for i, N, x in zip(n, c.shape,
                a) if N > 1), 'grid point', tol=1e-12)

    return np.prod(c.shape) > 1
