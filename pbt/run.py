"""Run the check of one property.

    run.py C01 [--tier quick|thorough] [--replay FILE] [--shards N] [--examples N]

exit 0: the property held on everything explored; exit 1: a VIOLATION line was printed;
exit 2: the machinery failed (no statement about the property).
"""
import argparse
import importlib
import json
import os
import random
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from unittest import SkipTest

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import core  # noqa: E402

VERIF = core.VERIF
PYTHON = '/opt/venv/bin/python'
LEVEL = 'exploration'


def parse_args(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int, default=0)
    ap.add_argument('--examples', type=int, default=0)
    ap.add_argument('--worker', type=int, default=-1)
    ap.add_argument('--out')
    ap.add_argument('--scratch')
    ap.add_argument('--seconds', type=float, default=0)
    return ap.parse_args(argv)


def load(prop):
    core.import_ezodf()
    return importlib.import_module('props.' + prop.lower())


def base_seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return sum(ord(c) for c in os.environ['VERIF_SEED'])


# ------------------------------------------------------------------ worker

def direct(strategy, body, count, rnd, search, failed):
    """`count` independent draws; a failing one is handed to the engine, which shrinks it"""
    from hypothesis.control import BuildContext
    from hypothesis.database import InMemoryExampleDatabase, choices_to_bytes
    from hypothesis.errors import StopTest, UnsatisfiedAssumption
    from hypothesis.internal.conjecture.data import ConjectureData
    done = tries = 0
    while done < count and tries < 5 * count:
        tries += 1
        data = ConjectureData(random=rnd)
        try:
            with BuildContext(data, wrapped_test=body):
                case = data.draw(strategy)
        except (StopTest, UnsatisfiedAssumption):     # too big, or a filter gave up
            continue
        done += 1
        try:
            body(case)
        except failed:
            data.freeze()
            database = InMemoryExampleDatabase()
            test = search(database)
            test._hypothesis_internal_database_key = b'direct'
            # not the primary key: what is found there counts as shrunk already
            database.save(b'direct.secondary', choices_to_bytes(data.choices))
            try:
                test()
            except SkipTest:         # not reproduced from its choices: reported as it is
                pass
            raise


def worker(args):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.path.append(core.HYPOTHESIS)
    # generation of big cases recurses
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))
    result = {'violation': None, 'case': None, 'error': None}
    ctx = None
    try:
        module = load(args.property)
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        from hypothesis.internal.conjecture import engine
        engine.BUFFER_SIZE = 20 * 1024
        if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
            engine.MAX_SHRINKING_SECONDS = 40 if args.tier == 'quick' else 120
        profile = {'shard': args.worker, 'tier': args.tier,
                   'big': args.worker % 4 == 3, 'tiny': args.worker % 4 == 0}
        ctx = core.Ctx(args.scratch, profile)
        strategy = module.strategy(profile)
        current = os.path.join(args.scratch, 'current.json')
        deadline = time.monotonic() + args.seconds
        state = {'fail': None, 'text': None, 'harness': None}

        class Failed(Exception):
            pass

        class OutOfTime(Exception):
            pass

        def body(case):
            if state['fail'] is None and time.monotonic() > deadline:
                raise OutOfTime()
            cj = json.dumps(case, sort_keys=True)
            with open(current, 'w') as f:
                f.write(cj)
            try:
                text = core.execute(module, case, ctx)
            except core.HarnessError:
                state['harness'] = traceback.format_exc()
                raise
            if text is not None:
                if state['fail'] is None or len(cj) <= len(state['fail']):
                    state['fail'], state['text'] = cj, text
                    with open(args.out + '.found', 'w') as f:
                        f.write(cj)
                raise Failed()

        def search(n, phases, database=None):
            test = settings(max_examples=n, database=database, deadline=None, phases=phases,
                            suppress_health_check=list(HealthCheck),
                            report_multiple_bugs=False, print_blob=False)(given(strategy)(body))
            # (a seeded test ignores the database)
            return test if database is not None else hypothesis.seed(base_seed() * 1000 + args.worker)(test)

        # One third of the cases comes from the engine (small and repetitive ones), the rest are
        # independent draws of the strategy.
        wrapped = search(max(1, args.examples // 3), (Phase.explicit, Phase.generate, Phase.shrink))
        # fixed regression cases first (directed examples and probes of repaired findings)
        if args.worker == 0:
            for case in getattr(module, 'EXAMPLES', ()):
                text = core.execute(module, case, ctx)
                if text is not None:
                    result['violation'], result['case'] = text, case
                    break
        if result['violation'] is None:
            try:
                wrapped()
                direct(strategy, body, args.examples - args.examples // 3,
                       random.Random(base_seed() * 1000 + args.worker),
                       lambda database: search(1, (Phase.reuse, Phase.shrink), database), Failed)
            except OutOfTime:
                ctx.note('stopped at the time limit')
            except Failed:
                pass
            except BaseException as e:  # Flaky, ExceptionGroup and the like
                if state['fail'] is None:
                    raise
            if state['harness']:
                result['error'] = state['harness']
            elif state['fail'] is not None:
                result['violation'], result['case'] = state['text'], json.loads(state['fail'])
    except BaseException:
        result['error'] = traceback.format_exc()
    if ctx is not None:
        result.update(evaluations=ctx.evaluations, steps=ctx.steps, classes=ctx.classes,
                      nontrivial=sorted(ctx.nontrivial_hashes), samples=ctx.samples)
    with open(args.out + '.part', 'w') as f:
        json.dump(result, f)
    os.rename(args.out + '.part', args.out)


# ------------------------------------------------------------------ parent

def read_known(prop):
    known = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d['property'] == prop and d['status'] == 'known':
                        known.append(d)
    return known


def replay(prop, path, scratch):
    module = load(prop)
    ctx = core.Ctx(scratch)
    with open(path) as f:
        data = json.load(f)
    return core.execute(module, data['case'], ctx)


def write_replay(prop, case, text, args, n=0):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%d.json' % (prop, os.getpid()))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'case': case, 'what': text, 'seed': base_seed(),
                   'tier': args.tier,
                   'how': './check %s --replay %s' % (prop, path)}, f, indent=1)
    return path


def preload(module, scratch):
    """path of the compiled fault injector for modules that need it"""
    source = getattr(module, 'PRELOAD', None)
    if source is None:
        return None
    lib = os.path.join(scratch, 'preload.so')
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', lib, os.path.join(HERE, source), '-ldl'])
    return lib


def env_for_worker(scratch, lib=None):
    env = dict(os.environ)
    if lib:
        env['LD_PRELOAD'] = lib
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TMPDIR=scratch,
               PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), TZ='UTC', LC_ALL='C.UTF-8')
    env.pop('PYTHONPATH', None)
    return env


def main(argv):
    args = parse_args(argv)
    args.property = args.property.upper()
    if args.worker >= 0:
        os.makedirs(args.scratch, exist_ok=True)
        worker(args)
        return 0

    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix='ezodf-%s-' % args.property)
    procs = []
    try:
        if args.replay and not os.environ.get('LD_PRELOAD'):
            lib = preload(load(args.property), scratch)
            if lib:
                return subprocess.call([PYTHON, '-B', '-W', 'ignore', os.path.abspath(__file__)] + argv,
                                       env=env_for_worker(scratch, lib))
        if args.replay:
            text = replay(args.property, args.replay, scratch)
            if text is None:
                print('replay: the property held for this case')
                return 0
            print('replay: %s' % text)
            print('VIOLATION property=%s replay=%s' % (args.property, args.replay))
            return 1
        sys.path.append(core.HYPOTHESIS)
        module = load(args.property)
        budget = args.examples or module.BUDGET[args.tier]
        shards = args.shards or (os.cpu_count() or 4)
        seconds = args.seconds or (150 if args.tier == 'quick' else 2400)
        env = env_for_worker(scratch, preload(module, scratch))
        for i in range(shards):
            out = os.path.join(scratch, 'out%d.json' % i)
            sdir = os.path.join(scratch, 's%d' % i)
            cmd = [PYTHON, '-B', '-W', 'ignore', os.path.abspath(__file__), args.property,
                   '--worker', str(i), '--out', out, '--scratch', sdir, '--tier', args.tier,
                   '--examples', str(max(1, budget // shards)), '--seconds', str(seconds)]
            log = open(os.path.join(scratch, 'log%d' % i), 'wb')
            procs.append((i, out, sdir, subprocess.Popen(cmd, env=env, stdout=log, stderr=log,
                                                         stdin=subprocess.DEVNULL), log))
        results, violation = {}, None
        pending = {p[0]: p for p in procs}
        hard = time.monotonic() + seconds + 200
        while pending:
            for i, (_, out, sdir, proc, log) in list(pending.items()):
                if proc.poll() is None:
                    continue
                del pending[i]
                if os.path.exists(out):
                    with open(out) as f:
                        results[i] = json.load(f)
                else:
                    with open(os.path.join(scratch, 'log%d' % i), errors='replace') as f:
                        tail = f.read()[-2000:]
                    case = None
                    cur = os.path.join(sdir, 'current.json')
                    if proc.returncode < 0 and os.path.exists(cur):
                        try:
                            with open(cur) as f:
                                case = json.load(f)
                        except ValueError:
                            pass
                    if case is not None and proc.returncode in (-11, -6, -7, -8):
                        results[i] = {'violation': 'the process crashed with signal %d' % -proc.returncode,
                                      'case': case, 'error': None}
                    else:
                        results[i] = {'violation': None, 'case': None,
                                      'error': 'worker %d ended with %s\n%s' % (i, proc.returncode, tail)}
                if results[i].get('violation'):
                    v = results[i]
                    if violation is None or len(json.dumps(v['case'])) < len(json.dumps(violation['case'])):
                        violation = v
            if violation is not None or time.monotonic() > hard:
                break
            time.sleep(0.02)
        for p in pending.values():
            p[3].kill()
        for p in procs:
            p[3].wait()

        # known findings: each is probed separately and never suppresses anything else
        known_lines = []
        if violation is None:
            ctx = core.Ctx(os.path.join(scratch))
            for k in read_known(args.property):
                text = core.execute(module, k['probe'], ctx)
                if text is not None:
                    known_lines.append('KNOWN-FINDING: property=%s %s' % (args.property, k['what']))

        errors = [r['error'] for r in results.values() if r.get('error')]
        if pending and violation is None:
            errors.append('%d workers did not finish' % len(pending))
        write_evidence(args, module, results, violation, time.monotonic() - t0, shards)
        for line in known_lines:
            print(line)
        if violation is not None:
            path = write_replay(args.property, violation['case'], violation['violation'], args)
            print(violation['violation'])
            print('case: %s' % core.short(json.dumps(violation['case']), 1500))
            print('VIOLATION property=%s replay=%s' % (args.property, path))
            return 1
        if errors:
            sys.stderr.write('HARNESS ERROR\n%s\n' % errors[0][:1500] + '\n...\n' + errors[0][-1500:])
            return 2
        n = sum(r.get('evaluations', 0) for r in results.values())
        d = len(set(h for r in results.values() for h in r.get('nontrivial', ())))
        print('%s: held on %d cases (%d distinct non-trivial), %.1f s' % (
            args.property, n, d, time.monotonic() - t0))
        return 0
    finally:
        for p in procs:
            if p[3].poll() is None:
                p[3].kill()
                p[3].wait()
            p[4].close()
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(args, module, results, violation, wall, shards):
    hashes, classes, samples = set(), {}, []
    evaluations = steps = 0
    for i in sorted(results):
        r = results[i]
        evaluations += r.get('evaluations', 0)
        steps += r.get('steps', 0)
        hashes.update(r.get('nontrivial', ()))
        for k, v in r.get('classes', {}).items():
            classes[k] = classes.get(k, 0) + v
        samples.extend(r.get('samples', ()))
    samples.sort(key=lambda s: len(json.dumps(s)))
    evidence = {
        'property': args.property,
        'tier': args.tier,
        'seed': base_seed(),
        'level': getattr(module, 'LEVEL', LEVEL),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': module.RULE,
            'samples': samples[:4],
            'steps': steps,
            'classes': dict(sorted(classes.items())),
            'shards': shards,
        },
        'wall_s': round(wall, 2),
        'assumptions': list(module.ASSUME),
        'violations': 0 if violation is None else 1,
    }
    folder = os.path.join(VERIF, 'evidence')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, args.property + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + '.tmp', path)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
