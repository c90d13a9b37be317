"""Runner:  python -m pbt.run C01 [--tier quick|thorough] [--facet NAME] [--replay FILE]

Exit 0: the property held on everything explored.
Exit 1: VIOLATION line printed, minimal reproduction written to the replay file.
Exit 2: the machinery failed or ran out of time (no statement about the property).
"""
import argparse
import ast
import collections
import importlib
import json
import logging
import multiprocessing
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from pbt import core  # noqa: E402

TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
NEO_MODULES = ['neocore', 'neocore.BigInteger', 'neocore.Fixed8', 'neocore.UIntBase', 'neocore.UInt160', 'neocore.UInt256',
               'neocore.IO.BinaryReader', 'neocore.IO.BinaryWriter', 'neocore.IO.Mixins', 'neocore.Utils',
               'neocore.Cryptography.Helper', 'neocore.Cryptography.Crypto', 'neocore.Cryptography.ECCurve',
               'neocore.Cryptography.MerkleTree', 'neocore.KeyPair', 'neocore.bin.cli']
DEADLINE = {'quick': 780, 'thorough': 4 * 3600}
WORKERS = 8
# factor on the numbers of cases in the quick tier (chosen by what the properties cost: most take 3 to 20 s)
QUICK = collections.defaultdict(lambda: 2.5, C01=1.5, C03=1.5, C13=2, C17=1.5, C20=1.5, C21=2, C25=1.5, C28=1.5, C31=1.5, C19=1, C22=1, C26=1, C27=1.3, C29=1.3)
SHRINK_SECONDS = 40


def import_code_under_test():
    """Import neocore from the working tree, never from a stale byte code cache."""
    sys.path.insert(0, core.REPO)
    import bitcoin, scrypt, base58, ecdsa, mpmath, Crypto.Cipher.AES, logzero  # noqa: F401,E401  (cached byte code is fine here)
    saved = sys.pycache_prefix, sys.dont_write_bytecode
    sys.pycache_prefix = os.path.join(VERIF, '.no-such-cache')
    sys.dont_write_bytecode = True
    for name in NEO_MODULES:
        mod = importlib.import_module(name)
        if not os.path.realpath(mod.__file__).startswith(core.PKG):
            raise core.HarnessError('%s imported from %s' % (name, mod.__file__))
    sys.pycache_prefix, sys.dont_write_bytecode = saved
    import logzero
    logzero.logger.disabled = True
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')


def import_hypothesis():
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    import hypothesis  # noqa: F401
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS


def load_facets(prop):
    import pkgutil
    import pbt.facets
    for m in sorted(x.name for x in pkgutil.iter_modules(pbt.facets.__path__)):
        importlib.import_module('pbt.facets.' + m)
    out = [f for f in core.REGISTRY if prop is None or f.prop == prop]
    return out + [q for q in (f.sequences() for f in out) if q]


def known_findings():
    """{id: (property, text)} of the recorded, unrepaired findings."""
    out = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known:'):
                # known: property=C04 id=KF1 <what fails>
                _, prop, ident, text = line.split(None, 3)
                out[ident.split('=', 1)[1]] = (prop.split('=', 1)[1], text)
    return out


def run_shard(fct, seed, shard, shards, n, known_ids, on_hang=None):
    """Generate and run the cases of one shard; returns the CaseRunner and an error text or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    runner = core.CaseRunner(fct, known_ids, on_hang)
    runner.arm()
    if fct.corpus is not None:
        cases = list(fct.corpus()) if shard == 0 or fct.spread else []
        for case in cases[shard::shards] if fct.spread else cases:
            try:
                runner(case)
            except core.HarnessError:
                return runner, traceback.format_exc()
            except Exception:
                return runner, None
    share = n // shards + (1 if shard < n % shards else 0)
    if share == 0 or fct.strategy is None:
        return runner, None
    # Hypothesis spends most of its cases on variations of earlier ones (equal parts copied around); every fourth shard
    # does that, the others draw fresh cases
    import hypothesis.internal.conjecture.engine as engine
    if not hasattr(engine, 'pbt_mutations'):
        engine.pbt_mutations = engine.ConjectureRunner.generate_mutations_from
    engine.ConjectureRunner.generate_mutations_from = engine.pbt_mutations if shard % 4 == 0 else (lambda self, data: None)
    engine.MAX_SHRINKING_SECONDS = 120
    num = int.from_bytes(core.hash_case((seed, fct.prop, fct.name, shard)), 'big') >> 1

    @hypothesis.seed(num)
    @settings(max_examples=share, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), derandomize=False)
    @given(fct.strategy())
    def test(case):
        runner(case)

    try:
        test()
    except core.HarnessError:
        return runner, traceback.format_exc()
    except Exception:
        if runner.last is None:
            return runner, traceback.format_exc()
    return runner, None


def summary(runner, error):
    fail = None
    if runner.last is not None:
        # a failure that no longer reproduces while shrinking (dependence on history) is reported as first seen
        fail = runner.last if len(repr(runner.last[0])) <= len(repr(runner.first[0])) else runner.first
    return dict(evaluations=runner.evaluations, nontrivial=runner.nontrivial_evaluations, hashes=runner.hashes,
                labels=runner.labels, known=runner.known, samples=runner.samples, fail=fail, error=error)


def child(fct, seed, shard, shards, n, known_ids, out):
    os.setpgid(0, 0)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    sys.setrecursionlimit(5000)

    def put(obj):
        with open(out + '.tmp', 'wb') as f:
            pickle.dump(obj, f)
        os.rename(out + '.tmp', out)

    state = {}

    def on_hang(case):
        put(dict(evaluations=1, nontrivial=0, hashes=set(), labels={}, known={}, samples=[],
                 fail=(case, 'no answer within %d s of CPU time' % core.CASE_CPU_SECONDS), error=None))
        os._exit(0)

    try:
        runner, error = run_shard(fct, seed, shard, shards, n, known_ids, on_hang)
        put(summary(runner, error))
    except BaseException:
        put(dict(evaluations=0, nontrivial=0, hashes=set(), labels={}, known={}, samples=[], fail=None,
                 error=traceback.format_exc()))
    sys.stdout.flush()
    os._exit(0)


def write_replay(d, prop, fct, fail, seed, tier, shard, shards, n):
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, fct.name))
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(dict(property=prop, facet=fct.name, case=repr(fail[0]), message=fail[1], seed=seed, tier=tier,
                       shard=shard, shards=shards, n=n), f, indent=1)
    return path


def replay(path, known_ids):
    rec = json.load(open(path, encoding='utf-8'))
    fcts = [f for f in load_facets(rec['property']) if f.name == rec['facet']]
    if not fcts:
        print('no facet %s' % rec['facet'])
        return 2
    runner = core.CaseRunner(fcts[0], known_ids)
    runner.arm()
    print('case: %s' % rec['case'])
    try:
        runner(ast.literal_eval(rec['case']))
    except core.HarnessError:
        raise
    except Exception:
        print(runner.last[1])
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    print('this case alone passes; running its shard again (seed %d, shard %d)' % (rec['seed'], rec['shard']))
    runner, error = run_shard(fcts[0], rec['seed'], rec['shard'], rec['shards'], rec['n'], known_ids)
    if runner.last:
        print('after %d earlier cases: %s\n%s' % (runner.evaluations - 1, core.short(runner.last[0], 2000), runner.last[1]))
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    print('no violation')
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--facet')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0, help='factor on the number of cases')
    ap.add_argument('--no-fuzz', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--replay-dir', default=os.path.join(VERIF, 'replays'))
    ap.add_argument('--verbose', action='store_true')
    args = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED') or '1')
    started = time.time()
    import_code_under_test()
    import_hypothesis()
    known = known_findings()
    if args.replay:
        return replay(args.replay, set(known))
    prop = args.prop
    facets = [f for f in load_facets(prop) if not args.facet or f.name in (args.facet, args.facet + '+seq')]
    if not facets:
        print('no facets for %s' % prop)
        return 2

    # the recorded findings of this property: replay each, report those which still fail
    from pbt import findings
    for ident, (kprop, text) in sorted(known.items()):
        if kprop == prop and not args.facet:
            try:
                again = findings.reproduces(ident)
            except Exception:
                # the recorded failure has changed into another one, which the facets judge
                again = False
            if again:
                print('KNOWN-FINDING: property=%s %s' % (prop, text))
    sys.stdout.flush()

    tasks = []
    for f in facets:
        n = int(f.n * (f.thorough if args.tier == 'thorough' else QUICK[prop]) * args.scale)
        if f.strategy is None:
            shards = 1
        else:
            shards = max(1, min(n, f.shards if args.tier == 'quick' else max(8, f.shards)))
        for s in range(shards):
            tasks.append((f, s, shards, n))
    # expensive facets declare more shards; interleave so that their shards start first
    tasks.sort(key=lambda t: (-t[0].shards, t[1]))
    tmp = tempfile.mkdtemp(prefix='pbt-')
    ctx = multiprocessing.get_context('fork')
    running = {}
    results = []
    violation = None
    errors = []
    queue = collections.deque(enumerate(tasks))
    workers = min(WORKERS, os.cpu_count() or 1) if (os.cpu_count() or 1) > 1 else 2
    deadline = started + DEADLINE[args.tier]
    timed_out = False
    walls = {}
    try:
        while queue or running:
            while queue and len(running) < workers and violation is None:
                idx, (f, s, shards, n) = queue.popleft()
                out = os.path.join(tmp, 'r%d' % idx)
                p = ctx.Process(target=child, args=(f, seed, s, shards, n, set(known), out))
                p.start()
                running[p] = (f, s, shards, n, out, time.time())
            if violation is not None:
                queue.clear()
            done = [p for p in running if not p.is_alive()]
            for p in done:
                f, s, shards, n, out, t0 = running.pop(p)
                p.join()
                walls[(f.name, s)] = time.time() - t0
                if not os.path.exists(out):
                    errors.append('shard %s/%d ended without a result (exit code %s)' % (f.name, s, p.exitcode))
                    continue
                with open(out, 'rb') as fh:
                    r = pickle.load(fh)
                results.append((f, s, r))
                if r['error']:
                    errors.append('shard %s/%d:\n%s' % (f.name, s, r['error']))
                if r['fail'] is not None and violation is None:
                    violation = (f, s, shards, n, r['fail'])
            if violation is not None and running and time.time() > started + 5:
                # the answer is known: do not wait for the rest
                for p in list(running):
                    p.kill()
                    p.join()
                    running.pop(p)
            if time.time() > deadline:
                timed_out = True
                for p in list(running):
                    p.kill()
                    p.join()
                    running.pop(p)
                break
            if not done:
                time.sleep(0.01)
    finally:
        for p in running:
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    fuzz_info = None
    if args.tier == 'thorough' and violation is None and not errors and not timed_out and not args.no_fuzz:
        from pbt import fuzz
        fuzz_info, fviol, ferrors = fuzz.campaign([f for f in facets if f.fuzz and f.strategy is not None], seed, set(known))
        errors += ferrors
        if fviol:
            violation = fviol

    per = {}
    hashes = {}
    labels = {}
    samples = []
    for f, s, r in results:
        d = per.setdefault(f.name, dict(evaluations=0, nontrivial=0, rule=f.rule, labels={}))
        d['evaluations'] += r['evaluations']
        d['nontrivial'] += r['nontrivial']
        hashes.setdefault(f.name, set()).update(r['hashes'])
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        if s == 0:
            samples += ['%s: %s' % (f.name, x) for x in r['samples'][-2:]]
    for name, hs in hashes.items():
        per[name]['distinct_nontrivial'] = len(hs)
    evaluations = sum(d['evaluations'] for d in per.values())
    distinct = sum(len(h) for h in hashes.values())
    wall = time.time() - started
    cov = dict(evaluations=evaluations, distinct_nontrivial=distinct,
               rule='; '.join('%s: %s' % (f.name, f.rule) for f in facets), samples=samples[:40], facets=per)
    if fuzz_info:
        cov['coverage_guided'] = fuzz_info
        cov['evaluations'] += fuzz_info['executions']
    from pbt.assumptions import ASSUMPTIONS
    ev = dict(property=prop, tier=args.tier, seed=seed, level='exploration', coverage=cov,
              assumptions=ASSUMPTIONS.get(prop, []) + ASSUMPTIONS['*'], wall_s=round(wall, 2), violations=1 if violation else 0)
    if not args.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
    if args.verbose:
        for f in facets:
            d = per.get(f.name)
            if d:
                w = [v for (a, b), v in walls.items() if a == f.name]
                print('%-34s eval %7d nontrivial %7d distinct %7d  shards %s  labels %s' % (f.name, d['evaluations'], d['nontrivial'],
                      d['distinct_nontrivial'], ' '.join('%.1f' % x for x in w), dict(sorted(d['labels'].items()))))
    if violation is not None:
        f, s, shards, n, fail = violation
        path = write_replay(args.replay_dir, prop, f, fail, seed, args.tier, s, shards, n)
        print('%s / %s fails for %s' % (prop, f.name, core.short(fail[0], 1500)))
        print(fail[1])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for e in errors:
        print('ERROR %s' % e)
    if timed_out:
        print('ERROR out of time: inconclusive')
    if errors or timed_out:
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (prop, cov['evaluations'], distinct, wall))
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
