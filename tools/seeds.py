"""Development aid: (re)writes seeded/<id>/ from the definitions in tools/seeds_*.txt-like Python below and confirms each one.

python3 tools/seeds.py [id ...]     build and confirm: applies, 105 tests pass, demo fails with the change and passes without
python3 tools/seeds.py --catch [id ...]   additionally run the quick check of the property (and print which check caught it)

All work happens in scratch copies under /tmp.  No check uses this file or seeded/.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SH = '''#!/bin/sh
# exit 0: the behaviour is right; nonzero: broken.  cwd is the repository.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" exec /opt/venv/bin/python -B -W ignore -X pycache_prefix=/nonexistent-cache "$here/demo.py"
'''
from seed_defs import SEEDS  # noqa: E402


def run(cmd, cwd, env=None, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    catch = '--catch' in sys.argv
    scratch = tempfile.mkdtemp(prefix='seeds-')
    res = {}
    try:
        for sid, d in SEEDS.items():
            if args and sid not in args:
                continue
            out = os.path.join(scratch, 'out-' + sid)
            copy = os.path.join(scratch, sid)
            shutil.copytree('/repo', copy, symlinks=True)
            for f, old, new in d['edits']:
                p = os.path.join(copy, f)
                s = open(p, encoding='utf-8').read()
                assert s.count(old) == 1, (sid, f, s.count(old), old)
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            diff = run(['git', 'diff'], copy).stdout.decode()
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            open(os.path.join(out, 'demo.sh'), 'w').write(SH)
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            open(os.path.join(out, 'demo.py'), 'w').write(d['demo'].lstrip('\n'))
            json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            open(os.path.join(out, 'meta.json'), 'a').write('\n')
            a = run(['sh', os.path.join(out, 'demo.sh')], '/repo')
            b = run(['sh', os.path.join(out, 'demo.sh')], copy)
            t = run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], copy, {'PYTHONPATH': copy, 'PATH': '/opt/venv/bin:' + os.environ['PATH']})
            tests = t.stdout.decode().strip().splitlines()[-1]
            good = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
            line = '%-28s %s demo %d/%d  %s' % (sid, 'ok ' if good else 'BAD', a.returncode, b.returncode, tests)
            if good:
                final = os.path.join(HERE, 'seeded', sid)
                shutil.rmtree(final, ignore_errors=True)
                shutil.copytree(out, final)
            else:
                line += '\n' + a.stdout.decode()[-300:] + '\n--\n' + b.stdout.decode()[-300:] + '\n' + '\n'.join(t.stdout.decode().splitlines()[-5:])
            if catch and good:
                c = run([PY, '-W', 'ignore', '-m', 'pbt.run', d['property'], '--no-evidence', '--replay-dir', os.path.join(scratch, 'r')], HERE, {'PBT_REPO': copy, 'VERIF_SEED': '1'})
                txt = c.stdout.decode()
                hit = [x for x in txt.splitlines() if ' fails for ' in x]
                line += '  CAUGHT %s' % hit[0][:110] if c.returncode == 1 else '  MISSED (%d) %s' % (c.returncode, txt[-200:])
            print(line, flush=True)
            shutil.rmtree(copy)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()
