"""Coverage-guided search over the facets (thorough tier): libFuzzer (atheris) chooses the bytes from which Hypothesis
builds the cases, guided by the branches of neocore they reach.  The oracle is the body of the facet, as elsewhere.

    python -m pbt.fuzz PROPERTY FACET SEED SECONDS OUT     (one campaign; used by campaign())
"""
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOTAL_SECONDS = int(os.environ.get('PBT_FUZZ_SECONDS', '900'))
WORKERS = 8


def single(prop, name, seed, seconds, out):
    from pbt import core, run
    if run.TOOLS not in sys.path:
        sys.path.append(run.TOOLS)
    import atheris
    with atheris.instrument_imports(include=['neocore'], enable_loader_override=False):
        run.import_code_under_test()
    run.import_hypothesis()
    from hypothesis import HealthCheck, given, settings
    fct = [f for f in run.load_facets(prop) if f.name == name][0]
    state = {'n': 0, 't': time.time()}

    def put(obj):
        with open(out + '.tmp', 'wb') as f:
            pickle.dump(obj, f)
        os.rename(out + '.tmp', out)

    def result(fail=None, error=None):
        return dict(executions=runner.evaluations, nontrivial=runner.nontrivial_evaluations, distinct=len(runner.hashes), known=sorted(runner.known), fail=fail, error=error)

    def on_hang(case):
        put(result((case, 'no answer within %d s of CPU time' % core.CASE_CPU_SECONDS)))
        os._exit(0)

    runner = core.CaseRunner(fct, set(run.known_findings()), on_hang)
    runner.arm()

    @settings(database=None, deadline=None, suppress_health_check=list(HealthCheck))
    @given(fct.strategy())
    def test(case):
        runner(case)

    fuzz_one = test.hypothesis.fuzz_one_input

    def one(data):
        if state['n'] % 64 == 0 and time.time() - state['t'] > seconds:
            put(result())
            sys.stderr.flush()
            os._exit(0)
        state['n'] += 1
        try:
            fuzz_one(data)
        except core.HarnessError:
            put(result(error=traceback.format_exc()))
            os._exit(0)
        except Exception:
            if runner.last is None:
                put(result(error=traceback.format_exc()))
            else:
                put(result(fail=runner.last))
            os._exit(0)

    corpus = out + '.corpus'
    os.makedirs(corpus, exist_ok=True)
    # short inputs are not enough for one case: start from long ones
    rnd = random.Random(seed)
    for i in range(48):
        with open(os.path.join(corpus, 'seed%d' % i), 'wb') as f:
            f.write(rnd.randbytes([64, 256, 1024, 4096][i % 4]))
    atheris.Setup([sys.argv[0], '-seed=%d' % (seed % (2 ** 31) + 1), '-max_len=4096', '-len_control=0', '-timeout=600', '-rss_limit_mb=6000', '-print_final_stats=0', '-artifact_prefix=%s/' % corpus, corpus], one)
    atheris.Fuzz()


def campaign(facets, seed, known_ids):
    """(information for the evidence, violation or None, list of errors)"""
    per = max(20, min(300, TOTAL_SECONDS * WORKERS // max(1, len(facets))))
    tmp = tempfile.mkdtemp(prefix='pbt-fuzz-')
    info = dict(tool='atheris (libFuzzer) driving the Hypothesis strategies of the facets', seconds_per_facet=per, executions=0, facets={})
    violation, errors = None, []
    queue = list(facets)
    running = {}
    try:
        while (queue or running) and violation is None:
            while queue and len(running) < WORKERS:
                f = queue.pop(0)
                out = os.path.join(tmp, f.name)
                log = open(out + '.log', 'wb')
                p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'pbt.fuzz', f.prop, f.name, str(seed), str(per), out], cwd=VERIF, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
                running[f.name] = (f, p, out, log, time.time())
            for name in list(running):
                f, p, out, log, t0 = running[name]
                if p.poll() is None and time.time() - t0 < per + 900:
                    continue
                if p.poll() is None:
                    p.kill()
                    p.wait()
                log.close()
                running.pop(name)
                text = open(out + '.log', 'rb').read().decode('utf-8', 'replace')
                if not os.path.exists(out):
                    errors.append('coverage-guided campaign of %s ended without a result:\n%s' % (name, text[-2000:]))
                    continue
                with open(out, 'rb') as fh:
                    r = pickle.load(fh)
                cov = [int(x) for x in re.findall(r'\bcov: (\d+)', text)]
                info['executions'] += r['executions']
                info['facets'][name] = dict(executions=r['executions'], nontrivial=r['nontrivial'], distinct_nontrivial=r['distinct'], coverage_counters_reached=max(cov) if cov else 0)
                if r['error']:
                    errors.append('coverage-guided campaign of %s: %s' % (name, r['error']))
                if r['fail'] is not None and violation is None:
                    violation = (f, 0, 1, f.n, r['fail'])
            time.sleep(0.2)
    finally:
        for f, p, out, log, t0 in running.values():
            p.kill()
            p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    return info, violation, errors


if __name__ == '__main__':
    single(sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5])
