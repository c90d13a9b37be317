"""Development aid: one change per function - arguments parked in a shared place (threads), a result that depends on assertions
(processes), a memo with an imprecise key - in a scratch copy, to find functions the checks of C29, C31 and the own property do not reach.

  python3 tools/marks.py threads|asserts|memo OUT.jsonl [--jobs 2] [--only SUBSTRING]

Not used by any check.  Works on copies of /repo under /tmp which it removes.
"""
import argparse
import ast
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'BigInteger.py': 'C11 C10', 'Fixed8.py': 'C12 C13 C01 C27', 'UIntBase.py': 'C09 C08 C04 C07 C27', 'UInt160.py': 'C08 C04 C09 C27', 'UInt256.py': 'C08 C04 C09 C27',
    'BinaryWriter.py': 'C01 C02 C03 C05 C04 C06 C30 C24', 'BinaryReader.py': 'C01 C02 C03 C04 C05 C06 C07 C30',
    'Helper.py': 'C24 C23 C22 C27', 'Crypto.py': 'C24 C19 C27 C23', 'ECCurve.py': 'C16 C17 C18 C26 C28 C07 C27', 'MerkleTree.py': 'C14 C15 C27', 'KeyPair.py': 'C20 C21 C22 C27', 'cli.py': 'C25 C23',
}
SKIP = {'setup_curve', 'SetupSignatureCurve', 'main', 'create_wallet', 'SignSecp256R1', 'IsLeaf', 'IsRoot', 'Size', 'Curve', 'IsInfinity', 'Infinity', '__setstate__', 'samefield', 'test_bit', 'FD'}

MEMO = '''

def _pbt_key(x):
    if isinstance(x, (bytes, bytearray, str)):
        return (type(x).__name__, len(x), bytes(x[:5]) + b'|' + bytes(x[-5:]) if not isinstance(x, str) else x[:8] + '|' + x[-8:])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, len(x)) + tuple(_pbt_key(e) for e in x[:1]) + tuple(_pbt_key(e) for e in x[-1:])
    if isinstance(x, int):
        return (type(x).__name__, x & 0xffffffff, x.bit_length())
    return (type(x).__name__, id(x) if not hasattr(x, 'value') else x.value)


def _pbt_memo(f):
    import functools
    table = {}

    @functools.wraps(f)
    def w(*a, **k):
        key = (tuple(_pbt_key(x) for x in a), tuple((n, _pbt_key(v)) for n, v in sorted(k.items())))
        if key not in table:
            if len(table) > 200:
                table.clear()
            table[key] = f(*a, **k)
        return table[key]
    return w
'''


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    for node in ast.walk(tree):
        for fn in getattr(node, 'body', []) if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)) else []:
            if isinstance(fn, ast.FunctionDef) and fn.name not in SKIP and not fn.name.startswith('_pbt'):
                yield (node.name + '.' if not isinstance(node, ast.Module) else '') + fn.name, fn


def change(path, kind, fn):
    lines = open(path).read().split('\n')
    body = fn.body
    if kind == 'memo':
        at = fn.lineno - 1
        lines[at:at] = [' ' * fn.col_offset + '@_pbt_memo']
        i = max([0] + [n.end_lineno for n in ast.parse('\n'.join(lines)).body if isinstance(n, (ast.Import, ast.ImportFrom)) and n.col_offset == 0 and n.lineno < 40])
        lines[i:i] = MEMO.split('\n')
    else:
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            if len(body) == 1:
                return False
            body = body[1:]
        pad = ' ' * body[0].col_offset
        at = body[0].lineno - 1
        if body[0].lineno == fn.lineno:
            return False
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        if kind == 'threads':
            if not names:
                return False
            t = ', '.join(names) + ','
            lines[at:at] = [pad + 'global _pbt_parked', pad + '_pbt_parked = (%s)' % t, pad + '(%s) = _pbt_parked' % t]
        else:
            lines[at:at] = [pad + 'if not __debug__:', pad + '    return None']
    text = '\n'.join(lines)
    try:
        compile(text, path, 'exec')
    except SyntaxError as e:
        print('skip', fn.name, e)
        return False
    open(path, 'w').write(text)
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('kind')
    ap.add_argument('out')
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--only', default='')
    ap.add_argument('--scale', default='1')
    ap.add_argument('--facet', default='')
    o = ap.parse_args()
    todo = []
    for root, _, files in os.walk('/repo/neocore'):
        for f in files:
            if f in FILES:
                for name, fn in sites(os.path.join(root, f)):
                    if o.only in f + ':' + name:
                        todo.append((os.path.relpath(os.path.join(root, f), '/repo'), f, name, fn))
    base = tempfile.mkdtemp(prefix='marks-', dir='/tmp')
    q = queue.Queue()
    for i in range(o.jobs):
        d = os.path.join(base, str(i))
        shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git', 'venv', '__pycache__'))
        q.put(d)
    out = open(o.out, 'a')

    def run(t):
        rel, f, name, fn = t
        d = q.get()
        try:
            p = os.path.join(d, rel)
            shutil.copy(os.path.join('/repo', rel), p)
            if not change(p, o.kind, fn):
                return
            killed = ''
            for prop in {'threads': 'C29', 'asserts': 'C31'}.get(o.kind, FILES[f]).split():
                cmd = ['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pbt.run', prop, '--no-evidence', '--no-fuzz', '--scale', o.scale, '--replay-dir', '/tmp/marks-replay'] + (['--facet', o.facet] if o.facet else [])
                r = subprocess.run(cmd, cwd=VERIF, env=dict(os.environ, PBT_REPO=d), capture_output=True, text=True, timeout=1200)
                if r.returncode:
                    killed = '%s %d %s' % (prop, r.returncode, (r.stdout.strip().split('\n') or [''])[-1][:120])
                    break
            out.write(json.dumps(dict(kind=o.kind, site=f + ':' + name, killed=killed)) + '\n')
            out.flush()
        finally:
            shutil.copy(os.path.join('/repo', rel), os.path.join(d, rel))
            q.put(d)
    try:
        with ThreadPoolExecutor(o.jobs) as ex:
            list(ex.map(run, todo))
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    main()
