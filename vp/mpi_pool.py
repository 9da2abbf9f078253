"""Pools of MPI processes that execute sub-checks."""

import atexit
import ctypes
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vp.harness import HarnessError, Violation

LIMIT = 150 # s per request, much longer than any case takes
GRACE = 5 # s for other ranks after one of them failed
LIFE = 150 # requests per pool (communicators and windows are never freed)

WORKER = os.path.join(os.path.dirname(os.path.abspath(__file__)),
    'mpi_worker.py')

pools = {}

libc = ctypes.CDLL(None)


def follow():
    libc.prctl(1, signal.SIGKILL) # end with parent


def environment(tmp):
    env = {k: v for k, v in os.environ.items() if not
        k.startswith(('OMPI_', 'PMIX_', 'ORTE_', 'PRTE_'))}

    env.update({k: v for k, v in os.environ.items()
        if k.startswith('OMPI_ALLOW') or k.startswith('OMPI_MCA_btl') or k in (
            'OMPI_MCA_pml', 'OMPI_MCA_plm',
            'OMPI_MCA_hwloc_base_binding_policy',
            'OMPI_MCA_rmaps_base_oversubscribe',
            'OMPI_MCA_mpi_yield_when_idle')})

    env['TMPDIR'] = tmp
    env['PYTHONFAULTHANDLER'] = ''

    return env


class Pool:
    def __init__(self, ranks, ranks_per_node):
        self.ranks = ranks
        self.count = 0

        for attempt in range(4):
            self.folder = tempfile.mkdtemp(prefix='vp_mpi_', dir='/tmp')

            for n in range(ranks):
                os.mkfifo(self.path('in', n))

            self.log = open(os.path.join(self.folder, 'log'), 'w')

            self.process = subprocess.Popen(['mpirun', '-n', str(ranks),
                sys.executable, '-B', WORKER, self.folder,
                str(ranks_per_node)], stdin=subprocess.DEVNULL,
                stdout=self.log, stderr=self.log, cwd=self.folder,
                env=environment(self.folder), start_new_session=True,
                preexec_fn=follow)

            if self.up():
                break

            with open(os.path.join(self.folder, 'log')) as log:
                text = log.read()

            self.close()
        else:
            raise HarnessError('MPI processes do not start:\n' + text[-3000:])

        self.fifos = [open(self.path('in', n), 'w') for n in range(ranks)]

    def path(self, name, n):
        return os.path.join(self.folder, '%s.%d' % (name, n))

    def up(self):
        start = time.time()

        while time.time() - start < 60:
            if all(os.path.exists(self.path('pid', n))
                    for n in range(self.ranks)):
                return True

            if self.process.poll() is not None:
                return False

            time.sleep(0.02)

        return False

    def results(self, id):
        results = {}

        for n in range(self.ranks):
            try:
                with open(self.path('out', n)) as data:
                    result = json.load(data)
            except FileNotFoundError:
                continue

            if result['id'] == id:
                results[n] = result

        return results

    def run(self, request):
        self.count += 1
        request = dict(request, id=self.count)

        for fifo in self.fifos:
            fifo.write(json.dumps(request) + '\n')
            fifo.flush()

        start = time.time()
        failed = None
        wait = 0.001

        while True:
            results = self.results(self.count)

            if len(results) == self.ranks:
                break

            if failed is None and any(r['status'] != 'ok'
                    for r in results.values()):
                failed = time.time()

            if failed is not None and time.time() - failed > GRACE:
                break

            if time.time() - start > LIMIT:
                break

            if self.process.poll() is not None:
                time.sleep(0.2)
                results = self.results(self.count)
                break

            time.sleep(wait)
            wait = min(0.02, wait * 1.2)

        shutil.rmtree(os.path.join(self.folder, 'scratch.%d' % self.count),
            ignore_errors=True)

        bad = [n for n in sorted(results) if results[n]['status'] != 'ok']

        if bad:
            r = results[bad[0]]
            self.close()

            if r['status'] == 'error':
                raise HarnessError(r['message'])

            raise Violation('ranks %s of %d: %s%s' % (bad, self.ranks,
                r['message'], '' if len(results) == self.ranks
                else '\n(ranks %s do not finish)' % [n
                    for n in range(self.ranks) if n not in results]))

        if len(results) < self.ranks:
            died = self.process.poll() is not None
            missing = [n for n in range(self.ranks) if n not in results]
            text = ''

            if not died:
                for n in missing:
                    with open(self.path('pid', n)) as data:
                        try:
                            os.kill(int(data.read()), signal.SIGUSR1)
                        except OSError:
                            pass

                time.sleep(1.0)

            for n in missing:
                with open(self.path('trace', n)) as data:
                    text += '\nrank %d:\n%s' % (n, data.read()[:1500])

            with open(os.path.join(self.folder, 'log')) as log:
                text += log.read()[-1500:]

            self.close()

            raise Violation('ranks %s of %d %s%s' % (missing, self.ranks,
                'die' if died else 'give no result after %d s:' % LIMIT, text))

        if self.count >= LIFE:
            self.close()

        return results[0].get('nontrivial', False)

    def close(self):
        for key in [key for key, pool in pools.items() if pool is self]:
            del pools[key]

        for fifo in getattr(self, 'fifos', []):
            try:
                fifo.close()
            except OSError:
                pass

        try:
            self.process.wait(0.0 if 'fifos' not in vars(self) else 2.0)
        except subprocess.TimeoutExpired:
            pass

        for n in range(self.ranks):
            try:
                with open(self.path('pid', n)) as data:
                    pid = int(data.read())

                with open('/proc/%d/cmdline' % pid) as data:
                    if self.folder in data.read():
                        os.kill(pid, signal.SIGKILL)
            except (OSError, ValueError):
                pass

        try:
            os.killpg(self.process.pid, signal.SIGKILL)
        except OSError:
            pass

        self.process.wait()
        self.log.close()

        shutil.rmtree(self.folder, ignore_errors=True)


@atexit.register
def close():
    for pool in list(pools.values()):
        pool.close()


def run(ranks, ranks_per_node, lag, property, sub, case):
    key = ranks, ranks_per_node

    if key not in pools:
        pools[key] = Pool(*key)

    return pools[key].run(dict(property=property, sub=sub, case=case, lag=lag))
