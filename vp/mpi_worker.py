"""One rank of an MPI pool: mpi_worker.py FOLDER RANKS_PER_NODE

Every rank executes the same sub-check on the same case. Requests come via one
FIFO per rank, so that idle ranks do not consume time. The outcome of rank n is
written to FOLDER/out.n. The communicator is wrapped so that

* nodes that share memory consist of the given number of ranks,
* chosen ranks are late (by a given time before and after each operation), and
* fresh shared memory is filled with conspicuous values.
"""

import builtins
import faulthandler
import importlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vp import harness # sets path

import numpy as np

from mpi4py import MPI

folder = sys.argv[1]
ranks_per_node = int(sys.argv[2])

WORLD = MPI.COMM_WORLD
rank = WORLD.rank

lag = 0.0


def late(name):
    base = getattr(MPI.Intracomm, name)

    def method(self, *args, **kwargs):
        if lag:
            time.sleep(lag)

        result = base(self, *args, **kwargs)

        if lag:
            time.sleep(lag)

        return result

    return method


class Comm(MPI.Intracomm):
    def Split(self, color=0, key=0):
        return Comm(super().Split(color, key))

    def Split_type(self, split_type, key=0, info=MPI.INFO_NULL):
        assert split_type == MPI.COMM_TYPE_SHARED
        return Comm(super().Split(rank // ranks_per_node, key))


for name in ['Barrier', 'barrier', 'Bcast', 'bcast', 'Gatherv', 'Allgatherv',
        'gather', 'allgather', 'Reduce', 'Allreduce', 'allreduce', 'Scatterv',
        'reduce', 'Gather', 'Allgather', 'Scatter', 'scatter']:
    setattr(Comm, name, late(name))

MPI.COMM_WORLD = Comm(WORLD)


_Win = MPI.Win


class WinModule:
    def __getattr__(self, name):
        return getattr(_Win, name)

    @staticmethod
    def Allocate_shared(size, disp_unit=1, info=MPI.INFO_NULL, comm=None):
        window = _Win.Allocate_shared(size, disp_unit, info, comm)
        buffer, itemsize = window.Shared_query(0)

        if comm.rank == 0 and size:
            np.frombuffer(buffer, dtype=np.uint8)[:] = 255

        MPI.Intracomm.Barrier(comm)

        return window


MPI.Win = WinModule()

import elphmod

where = os.path.dirname(os.path.abspath(elphmod.__file__))

if where != os.path.join(os.path.realpath(harness.REPO), 'elphmod'):
    raise SystemExit('wrong elphmod: %s' % where)

assert elphmod.MPI.comm.size == WORLD.size

elphmod.misc.verbosity = 0

harness.poison_empty()


# --------------------------------------------------------------------------
# Each rank has its own scratch folder. Since only the first process writes
# files, all others read the files of the first one, when it reads them, too.

scratch = None
count = 0


def mkdtemp(*args, **kwargs):
    global count
    count += 1
    path = os.path.join(scratch, str(rank), str(count))
    os.makedirs(path)
    return path


class TemporaryDirectory:
    def __init__(self, *args, **kwargs):
        self.name = mkdtemp()

    def __enter__(self):
        return self.name

    def __exit__(self, *args):
        pass


tempfile.mkdtemp = mkdtemp
tempfile.TemporaryDirectory = TemporaryDirectory


own = WORLD.Dup()


def reading(name, mode='r', *args, **kwargs):
    """Substitute for ``open`` in modules of the checks."""

    if (scratch is not None and 'r' in mode and isinstance(name, str)
            and os.path.abspath(name).startswith(scratch)):

        content = error = None

        if rank == 0:
            try:
                with builtins.open(name, 'rb') as data:
                    content = data.read()
            except OSError as e:
                error = e

        content, error = own.bcast((content, error))

        if error is not None:
            raise error

        data = io.BytesIO(content)

        return data if 'b' in mode else io.TextIOWrapper(data)

    return builtins.open(name, mode, *args, **kwargs)


class Shell:
    """Substitute for ``shutil`` in modules of the checks."""

    def __getattr__(self, name):
        return getattr(shutil, name)

    @staticmethod
    def rmtree(*args, **kwargs):
        pass


def module(id):
    name = 'vp.checks.%s' % id.lower() if id != 'M' else 'vp.mpi_scenarios'
    new = importlib.import_module(name)
    new.open = reading
    if hasattr(new, 'shutil'):
        new.shutil = Shell()
    return new


def run(request):
    sub = module(request['property']).P.subs[request['sub']]

    case = request['case']

    # results only on first process:

    only_first = rank and (not case.get('broadcast', True)
        and request['property'] != 'M' or not case.get('share', True))

    try:
        return dict(status='ok', nontrivial=bool(sub.function(harness.Case(
            case))))

    except harness.Violation as violation:
        if only_first:
            return dict(status='ok')

        return dict(status='violation', message=str(violation))

    except harness.HarnessError as error:
        return dict(status='error', message=str(error))

    except (Exception, SystemExit):
        if only_first and harness.REPO not in traceback.format_exc():
            return dict(status='ok')

        return dict(status='violation', message='exception:\n'
            + traceback.format_exc())


trace = open(os.path.join(folder, 'trace.%d' % rank), 'w')
faulthandler.register(signal.SIGUSR1, file=trace, all_threads=True)

with open(os.path.join(folder, 'pid.%d' % rank + '.tmp'), 'w') as data:
    data.write(str(os.getpid()))

os.rename(os.path.join(folder, 'pid.%d' % rank + '.tmp'),
    os.path.join(folder, 'pid.%d' % rank))

devnull = open(os.devnull, 'w')

fifo = open(os.path.join(folder, 'in.%d' % rank))

for line in fifo:
    request = json.loads(line)

    scratch = os.path.join(folder, 'scratch.%d' % request['id'])
    count = 0
    os.makedirs(os.path.join(scratch, str(rank)), exist_ok=True)

    cwd = os.path.join(scratch, str(rank))
    os.chdir(cwd)

    lag = 1e-3 * request['lag'][rank]

    stdout = sys.stdout
    sys.stdout = devnull
    result = run(request)
    sys.stdout = stdout

    lag = 0.0
    os.chdir(folder)

    result['id'] = request['id']

    out = os.path.join(folder, 'out.%d' % rank)

    with open(out + '.tmp', 'w') as data:
        json.dump(result, data)

    os.rename(out + '.tmp', out)

os._exit(0)
