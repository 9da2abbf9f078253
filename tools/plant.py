#!/usr/bin/env python3
"""Turn a description of a planted bug into seeded/<id> and confirm it.

usage: plant.py SPEC.py [ID ...]

SPEC.py defines a list ``bugs`` of dictionaries with the keys id, property,
edits (list of file, old, new), demo (Python program), needs, breaks. For each
bug, the patch is made in a scratch copy of /repo, where it is confirmed that
the stable tests pass and that the demonstration fails with it and passes
without it. Finally, the check of the property is run against the copy.
"""

import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# exit 0 if the property holds for the example in demo.py
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(command, **kwargs):
    return subprocess.run(command, shell=True, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True, **kwargs)


def plant(bug):
    copy = '/tmp/plant-%s' % bug['id']
    target = os.path.join(VERIF, 'seeded', bug['id'])
    log = []

    if os.path.exists(copy):
        shutil.rmtree(copy)

    shutil.copytree('/repo', copy, symlinks=True)

    try:
        os.makedirs(target, exist_ok=True)

        with open(os.path.join(target, 'demo.py'), 'w') as text:
            text.write(bug['demo'].lstrip('\n'))

        with open(os.path.join(target, 'demo.sh'), 'w') as text:
            text.write(DEMO)

        os.chmod(os.path.join(target, 'demo.sh'), 0o755)

        with open(os.path.join(target, 'meta.json'), 'w') as text:
            json.dump(dict(property=bug['property'], needs=bug['needs'],
                what_it_breaks=bug['breaks']), text, indent=1)
            text.write('\n')

        before = sh('bash %s/demo.sh' % target, cwd=copy)

        for name, old, new in bug['edits']:
            path = os.path.join(copy, name)

            with open(path) as text:
                code = text.read()

            if code.count(old) != 1:
                return '%s: %d matches' % (bug['id'], code.count(old))

            with open(path, 'w') as text:
                text.write(code.replace(old, new))

        with open(os.path.join(target, 'patch.diff'), 'w') as text:
            text.write(sh('git diff', cwd=copy).stdout)

        # only lines of the original repository may change:
        blame = ''

        for name, old, new in bug['edits']:
            base = sh('git show 5b01895:%s' % name, cwd=copy).stdout
            patch = sh('git diff -U0 %s' % name, cwd=copy).stdout

            for line in patch.splitlines():
                if re.match('-[^-]', line) and line[1:] not in base:
                    blame += ' NOT-ORIGINAL: ' + line

        after = sh('bash %s/demo.sh' % target, cwd=copy)

        sh("sed 's#/repo#%s#' /opt/vp/test.sh > %s.sh" % (copy, copy))
        tests = sh('bash %s.sh %s.json' % (copy, copy))

        with open(copy + '.json') as data:
            tests = json.load(data)

        with open('/opt/vp/BASELINE.json') as data:
            missing = set(json.load(data)['stable']) - set(tests['passed'])

        check = sh('%s/check %s' % (VERIF, bug['property']),
            env=dict(os.environ, VP_REPO=copy, VP_EVIDENCE='/dev/null'))

        found = [line for line in check.stdout.splitlines()
            if line.startswith('VIOLATION')]

        return '%s (%s): demo %d -> %d, %s, check %d%s%s%s' % (bug['id'],
            bug['property'], before.returncode, after.returncode,
            'tests pass' if not missing else 'TESTS FAIL %s' % missing,
            check.returncode, ' CAUGHT ' + ' '.join(re.findall(r'replay=\S+',
                ' '.join(found))) if found else ' MISSED', blame,
                '\n' + before.stdout[-2000:] if before.returncode else '')
    finally:
        for path in [copy, copy + '.sh', copy + '.json']:
            if os.path.isdir(path):
                shutil.rmtree(path)
            elif os.path.exists(path):
                os.remove(path)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['bugs']

    if sys.argv[2:]:
        bugs = [bug for bug in bugs if bug['id'] in sys.argv[2:]]

    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        for line in pool.map(plant, bugs):
            print(line, flush=True)
