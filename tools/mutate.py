"""Development aid: small automatic changes of neocore in a scratch copy, to find behaviour the checks do not look at.

  python3 tools/mutate.py OUT.jsonl [--scale 0.3] [--jobs 3] [--only FILE-SUBSTRING] [--sample K]

Not used by any check.  Works on a copy of /repo under /tmp which it removes.
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    'BigInteger.py': 'C11 C10 C02', 'Fixed8.py': 'C12 C13 C01 C27', 'UIntBase.py': 'C09 C08 C04 C07', 'UInt160.py': 'C08 C04', 'UInt256.py': 'C08 C04',
    'BinaryWriter.py': 'C01 C02 C03 C05 C04 C06 C30', 'BinaryReader.py': 'C01 C02 C03 C04 C05 C06 C07 C30', 'Mixins.py': 'C05', 'MemoryStream.py': 'C06 C01', 'Utils.py': 'C23',
    'Helper.py': 'C24 C23 C22', 'Crypto.py': 'C19 C24 C27 C23', 'ECCurve.py': 'C16 C17 C18 C26 C28 C07', 'MerkleTree.py': 'C14 C15', 'KeyPair.py': 'C20 C21 C22 C27', 'cli.py': 'C25 C23',
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult, ast.Div], ast.Div: [ast.FloorDiv], ast.Mod: [ast.FloorDiv], ast.BitXor: [ast.BitOr], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.Pow: [ast.Mult]}


def sites(tree):
    """(description, function that applies the change to a copy) for each possible change"""
    nodes = list(ast.walk(tree))
    docs = {id(n.value) for n in nodes if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
    out = []
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for alt in CMP.get(type(n.ops[0]), []):
                out.append((i, 'cmp', alt))
        elif isinstance(n, ast.BinOp):
            for alt in BIN.get(type(n.op), []):
                out.append((i, 'bin', alt))
        elif isinstance(n, ast.AugAssign):
            for alt in BIN.get(type(n.op), []):
                out.append((i, 'bin', alt))
        elif isinstance(n, ast.BoolOp):
            out.append((i, 'bool', ast.And if isinstance(n.op, ast.Or) else ast.Or))
            for j in range(len(n.values)):
                out.append((i, 'drop', j))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((i, 'unary', None))
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if type(n.value) is bool:
                out.append((i, 'const', not n.value))
            elif type(n.value) is int:
                out.append((i, 'const', n.value + 1))
                out.append((i, 'const', n.value - 1))
            elif isinstance(n.value, str) and n.value:
                out.append((i, 'const', n.value[:-1]))
            elif isinstance(n.value, bytes) and n.value:
                out.append((i, 'const', n.value[:-1]))
        elif isinstance(n, (ast.If, ast.While)):
            out.append((i, 'test', True))
            out.append((i, 'test', False))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append((i, 'swapargs', None))
        elif isinstance(n, (ast.FunctionDef,)):
            for j, stt in enumerate(n.body):
                if isinstance(stt, ast.Expr) and isinstance(stt.value, ast.Constant):
                    continue
                out.append((i, 'delete', j))
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append((i, 'retnone', None))
        elif isinstance(n, ast.Slice):
            out.append((i, 'slice', None))
    return out


def apply(tree, site):
    t = copy.deepcopy(tree)
    i, kind, arg = site
    n = list(ast.walk(t))[i]
    if kind == 'cmp':
        n.ops[0] = arg()
    elif kind == 'bin':
        n.op = arg()
    elif kind == 'bool':
        n.op = arg()
    elif kind == 'drop':
        n.values.pop(arg)
    elif kind == 'unary':
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else ast.Not()
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == 'const':
        n.value = arg
    elif kind == 'test':
        n.test = ast.Constant(arg)
    elif kind == 'swapargs':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'delete':
        n.body[arg] = ast.Pass()
    elif kind == 'retnone':
        n.value = ast.Constant(None)
    elif kind == 'slice':
        if n.upper is not None:
            n.upper = ast.BinOp(n.upper, ast.Sub(), ast.Constant(1))
        elif n.lower is not None:
            n.lower = ast.BinOp(n.lower, ast.Add(), ast.Constant(1))
        else:
            n.step = ast.Constant(1)
    return ast.unparse(ast.fix_missing_locations(t)), getattr(n, 'lineno', 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--scale', default='0.2')
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--only', default='')
    ap.add_argument('--sample', type=int, default=0)
    args = ap.parse_args()
    work = []
    for d, _, files in sorted(os.walk('/repo/neocore')):
        for fn in sorted(files):
            path = os.path.join(d, fn)
            if not fn.endswith('.py') or fn not in PROPS or args.only not in path:
                continue
            src = open(path, encoding='utf-8').read()
            tree = ast.parse(src)
            for s in sites(tree):
                work.append((os.path.relpath(path, '/repo'), src, tree, s))
    random.Random(7).shuffle(work)
    if args.sample and args.sample < len(work):
        work = random.Random(1).sample(work, args.sample)
    done = set()
    if os.path.exists(args.out):
        done = {tuple(json.loads(x)['key']) for x in open(args.out)}
    print(len(work), 'changes', file=sys.stderr)
    base = tempfile.mkdtemp(prefix='mutate-')
    import queue
    slots = queue.Queue()
    for k in range(args.jobs):
        dst = os.path.join(base, 'r%d' % k)
        shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        slots.put(dst)
    fh = open(args.out, 'a')

    def one(item):
        rel, src, tree, site = item
        key = (rel, site[0], site[1], str(site[2]))
        if key in done:
            return
        try:
            text, line = apply(tree, site)
        except Exception:
            return
        if text == ast.unparse(tree):
            return
        dst = slots.get()
        try:
            with open(os.path.join(dst, rel), 'w', encoding='utf-8') as f:
                f.write(text)
            env = dict(os.environ, PBT_REPO=dst, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
            killed, codes = None, {}
            t = subprocess.run(['timeout', '90', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=dst, env=dict(env, PYTHONPATH=dst, PATH='/opt/venv/bin:' + os.environ['PATH']), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if t.returncode:
                fh.write(json.dumps(dict(key=key, line=line, killed='tests', codes={})) + '\n')
                fh.flush()
                return
            for prop in PROPS[os.path.basename(rel)].split():
                p = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pbt.run', prop, '--scale', args.scale, '--no-evidence', '--no-fuzz', '--replay-dir', dst + '-replays'], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                codes[prop] = p.returncode
                if p.returncode != 0:
                    killed = prop
                    last = p.stdout.decode('utf-8', 'replace')[-300:]
                    break
            src_line = ''
            if line:
                src_line = src.splitlines()[line - 1].strip()
            rec = dict(key=key, line=line, src=src_line, killed=killed, codes=codes)
            if killed and codes[killed] != 1:
                rec['out'] = last
            fh.write(json.dumps(rec) + '\n')
            fh.flush()
        finally:
            with open(os.path.join(dst, rel), 'w', encoding='utf-8') as f:
                f.write(src)
            slots.put(dst)

    with ThreadPoolExecutor(args.jobs) as ex:
        list(ex.map(one, work))
    shutil.rmtree(base, ignore_errors=True)


main()
