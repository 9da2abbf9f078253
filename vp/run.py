"""Command line: run.py PROPERTY [--sub NAME] [--replay FILE] ..."""

import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vp import harness


def load(id):
    return importlib.import_module('vp.checks.%s' % id.lower()).P


def worker(prop, args):
    import elphmod

    where = os.path.dirname(os.path.abspath(elphmod.__file__))

    if where != os.path.join(os.path.realpath(harness.REPO), 'elphmod'):
        raise SystemExit('wrong elphmod: %s' % where)

    harness.poison_empty()

    sub = prop.subs[args.sub]
    result = harness.run_sub(prop, sub, args.tier, args.seed, args.budget,
        args.factor, args.out + '.case')

    with open(args.out, 'w') as data:
        json.dump(result, data)


def replay(prop, path):
    with open(path) as data:
        saved = json.load(data)

    harness.poison_empty()

    try:
        harness.execute(prop.subs[saved['sub']], saved['case'])
    except harness.Violation as violation:
        print(violation)
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1

    print('replay of %s passes' % path)
    return 0


def crash(prop, name, path, args, tmp):
    """Worker died without result. Return case that reproduces this."""

    if not os.path.exists(path):
        return None

    with open(path) as data:
        case = data.read()

    try:
        case = json.loads(case)
    except ValueError:
        return None

    own = os.path.join(tmp, name + '.crash')
    os.makedirs(own, exist_ok=True)
    replay = os.path.join(own, 'replay.json')

    with open(replay, 'w') as data:
        json.dump(dict(sub=name, case=case), data)

    died = 0

    for attempt in range(2):
        try:
            rc = subprocess.run([sys.executable, '-B',
                os.path.abspath(__file__), prop.id, '--replay', replay],
                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                stderr=subprocess.DEVNULL, timeout=300, cwd=own,
                env=dict(os.environ, TMPDIR=own)).returncode
        except subprocess.TimeoutExpired:
            rc = 1

        died += rc != 0

    return case if died == 2 else None


def known_findings(prop):
    """Listed findings of this property: (sub-check, case, text)."""

    path = os.path.join(harness.VERIF, 'known_findings.jsonl')
    found = []

    if os.path.exists(path):
        with open(path) as lines:
            for line in lines:
                if line.startswith('{'):
                    entry = json.loads(line)

                    if entry['property'] == prop.id:
                        found.append(entry)

    return found


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--sub')
    parser.add_argument('--only', help='comma-separated sub-checks')
    parser.add_argument('--out')
    parser.add_argument('--replay')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int,
        default=int(os.environ.get('VERIF_SEED', '1') or 1))
    parser.add_argument('--budget', type=float)
    parser.add_argument('--factor', type=float, default=1.0)
    parser.add_argument('--jobs', type=int, default=os.cpu_count() or 1)
    args = parser.parse_args()

    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'

    prop = load(args.property)

    if args.replay:
        return replay(prop, args.replay)

    if args.sub:
        worker(prop, args)
        return 0

    start = time.time()

    names = args.only.split(',') if args.only else list(prop.subs)

    deadline = 840 if args.tier == 'quick' else 6 * 3600

    if args.budget is None:
        args.budget = 240 if args.tier == 'quick' else 3600

    tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop.id)
    queue = list(names)
    running = {}
    attempts = {name: 0 for name in names}
    results = {}
    errors = []

    try:
        while queue or running:
            while queue and len(running) < args.jobs:
                name = queue.pop(0)
                attempts[name] += 1
                out = os.path.join(tmp, name + '.json')
                log = open(os.path.join(tmp, name + '.log'), 'w')

                # MPI keeps its session files in TMPDIR: do not share it.
                own = os.path.join(tmp, '%s.%d' % (name, attempts[name]))
                os.makedirs(own, exist_ok=True)
                budget = prop.subs[name].budget or args.budget

                if args.tier == 'quick':
                    budget = min(budget, args.budget)

                running[name] = subprocess.Popen([sys.executable, '-B',
                    os.path.abspath(__file__), prop.id, '--sub', name,
                    '--out', out, '--tier', args.tier, '--seed',
                    str(args.seed), '--budget', str(budget), '--factor',
                    str(args.factor)], stdout=log, stderr=log,
                    stdin=subprocess.DEVNULL, cwd=own,
                    env=dict(os.environ, TMPDIR=own))

                log.close()

            time.sleep(0.05)

            for name, process in list(running.items()):
                if process.poll() is not None:
                    del running[name]
                    out = os.path.join(tmp, name + '.json')

                    if os.path.exists(out):
                        with open(out) as data:
                            results[name] = json.load(data)

                        if results[name]['error']:
                            errors.append((name, results[name]['error']))
                    else:
                        with open(os.path.join(tmp, name + '.log'),
                                errors='replace') as log:
                            text = log.read()

                        case = crash(prop, name, out + '.case', args, tmp)

                        if case is not None:
                            results[name] = dict(sub=name, evaluations=1,
                                nontrivial=0, samples=[], planned=1,
                                budget_hit=False, error=None, wall_s=0.0,
                                violation=dict(case=case, message='The '
                                'interpreter dies reproducibly:\n'
                                + text[-2000:]))

                        elif attempts[name] < 3:
                            queue.append(name)
                        else:
                            errors.append((name, text[-4000:]))

            if time.time() - start > deadline:
                for name, process in running.items():
                    process.kill()
                    process.wait()
                    errors.append((name, 'time limit of the check exceeded'))

                break
    finally:
        for process in running.values():
            if process.poll() is None:
                process.kill()

        subprocess.run(['rm', '-rf', tmp])

    # Known findings: each is replayed, and only those are tolerated.

    for entry in known_findings(prop):
        if entry['sub'] in names:
            try:
                harness.execute(prop.subs[entry['sub']], entry['case'])
            except harness.Violation:
                print('KNOWN-FINDING: property=%s %s' % (prop.id,
                    entry['what']))

    violations = []

    folder = os.path.join(harness.VERIF, 'evidence', 'replay')

    for name in names:
        if name in results and results[name]['violation'] is not None:
            violation = results[name]['violation']

            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, '%s-%s.json' % (prop.id, name))

            with open(path, 'w') as data:
                json.dump(dict(property=prop.id, sub=name,
                    case=violation['case'], message=violation['message'],
                    seed=args.seed, tier=args.tier), data, indent=1)

            violations.append((path, violation['message']))

    samples = []

    for i in range(3):
        for name in names:
            if name in results and len(results[name]['samples']) > i:
                samples.append(results[name]['samples'][i])

    evidence = dict(
        property=prop.id,
        tier=args.tier,
        seed=args.seed,
        level='exploration',
        coverage=dict(
            evaluations=sum(r['evaluations'] for r in results.values()),
            distinct_nontrivial=sum(r['nontrivial'] for r in results.values()),
            rule=prop.rule,
            samples=samples[:12],
            sub_checks={name: dict(
                evaluations=r['evaluations'],
                distinct_nontrivial=r['nontrivial'],
                planned=r['planned'],
                budget_hit=r['budget_hit'],
                wall_s=round(r['wall_s'], 2)) for name, r in results.items()},
            ),
        assumptions=prop.assumptions,
        wall_s=round(time.time() - start, 2),
        violations=len(violations),
        )

    os.makedirs(os.path.join(harness.VERIF, 'evidence'), exist_ok=True)

    if not args.only:
        path = os.path.join(harness.VERIF, 'evidence', prop.id + '.json')

        with open(path + '.tmp', 'w') as data:
            json.dump(evidence, data, indent=1)

        os.replace(path + '.tmp', path)

    for name in names:
        if name in results:
            r = results[name]
            print('%-28s %6d cases %6d non-trivial %7.1f s%s' % (name,
                r['evaluations'], r['nontrivial'], r['wall_s'],
                ' (budget hit)' if r['budget_hit'] else ''))

            if (r['planned'] >= 20 and not r['nontrivial']
                    and not r['budget_hit'] and r['violation'] is None):
                errors.append((name, 'No non-trivial case was generated.'))

    for name, text in errors:
        print('HARNESS ERROR in %s:\n%s' % (name, text), file=sys.stderr)

    for path, message in violations:
        print(message)
        print('VIOLATION property=%s replay=%s' % (prop.id, path))

    if violations:
        return 1

    if errors:
        return 2

    print('OK property=%s: %d cases, %d distinct non-trivial' % (prop.id,
        evidence['coverage']['evaluations'],
        evidence['coverage']['distinct_nontrivial']))

    return 0


if __name__ == '__main__':
    sys.exit(main())
