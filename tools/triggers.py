"""Development aid: wrong results of one function under one rare condition, in a scratch copy, to find inputs and histories the checks do not reach.

  python3 tools/triggers.py OUT.jsonl [--scale 0.5] [--jobs 3] [--only FILE-SUBSTRING] [--sample K] [--seed N]

Not used by any check.  Works on copies of /repo under /tmp which it removes.
"""
import argparse
import ast
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'BigInteger.py': 'C11 C10', 'Fixed8.py': 'C12 C13 C01 C27', 'UIntBase.py': 'C09 C08 C04 C07 C27', 'UInt160.py': 'C08 C04 C09 C27', 'UInt256.py': 'C08 C04 C09 C27',
    'BinaryWriter.py': 'C01 C02 C03 C05 C04 C06 C30 C24', 'BinaryReader.py': 'C01 C02 C03 C04 C05 C06 C07 C30',
    'Helper.py': 'C24 C23 C22 C27', 'Crypto.py': 'C24 C19 C27 C23', 'ECCurve.py': 'C16 C17 C18 C26 C28 C07 C27', 'MerkleTree.py': 'C14 C15 C27', 'KeyPair.py': 'C20 C21 C22 C27', 'cli.py': 'C25 C23',
}
SKIP = {'setup_curve', 'SetupSignatureCurve', 'main', 'create_wallet', 'SignSecp256R1', 'IsLeaf', 'IsRoot', 'Size', 'Curve', 'IsInfinity', 'Infinity', '__setstate__', 'samefield', 'test_bit', 'FD'}
TRIGGERS = {
    'int<0': 'any(i < 0 for i in I)', 'int 256 k': 'any(i and i % 256 == 0 for i in I)', 'int 65536k': 'any(i and i % 65536 == 0 for i in I)', 'int ff': 'any(i & 255 == 255 for i in I)',
    'int power': 'any(i > 2 and i & (i - 1) == 0 for i in I)', 'int mersenne': 'any(i > 2 and i & (i + 1) == 0 for i in I)', 'int 8': 'any(i.bit_length() == 8 for i in I)', 'int 31': 'any(i.bit_length() == 31 for i in I)', 'int 63': 'any(i.bit_length() == 63 for i in I)',
    'int 64': 'any(i.bit_length() == 64 for i in I)', 'int 65-70': 'any(65 <= i.bit_length() <= 70 for i in I)', 'int 128-140': 'any(128 <= i.bit_length() <= 140 for i in I)', 'int 240-248': 'any(240 <= i.bit_length() <= 248 for i in I)', 'int 256': 'any(i.bit_length() == 256 for i in I)', 'int 257+': 'any(i.bit_length() > 256 for i in I)',
    'int mod 251': 'any(i % 251 == 17 for i in I)', 'int mod 509': 'any(i % 509 == 100 for i in I)', 'int 80 middle': 'any(i >> 8 & 255 == 0x80 for i in I)', 'int zero byte inside': 'any(i > 1 << 24 and i >> 8 & 255 == 0 and i & 255 for i in I)',
    'ints equal': 'len(I) > 1 and I[0] == I[1] and abs(I[0]) > 2', 'ints near': 'len(I) > 1 and abs(I[0] - I[1]) == 1 and abs(I[0]) > 300', 'ints opposite': 'len(I) > 1 and I[0] == -I[1] != 0', 'ints multiple': 'len(I) > 1 and abs(I[1]) > 1 and I[0] % I[1] == 0 and abs(I[0]) > abs(I[1])', 'ints low equal': 'len(I) > 1 and I[0] != I[1] and I[0] & 0xffff == I[1] & 0xffff', 'ints high equal': 'len(I) > 1 and I[0] != I[1] and I[0] >> 64 == I[1] >> 64 > 0', 'ints both big': 'len(I) > 1 and min(abs(I[0]), abs(I[1])) >> 300 > 0',
    'len 0': 'any(len(s) == 0 for s in S)', 'len 1': 'any(len(s) == 1 for s in S)', 'len odd': 'any(len(s) % 2 and len(s) > 8 for s in S)', 'len 55': 'any(len(s) % 64 == 55 for s in S)', 'len 63-65': 'any(63 <= len(s) <= 65 for s in S)', 'len 100-127': 'any(100 <= len(s) < 128 for s in S)', 'len 128-200': 'any(128 <= len(s) < 200 for s in S)', 'len 253-256': 'any(253 <= len(s) <= 256 for s in S)', 'len 300+': 'any(len(s) > 300 for s in S)', 'len 1024k': 'any(len(s) and len(s) % 1024 == 0 for s in S)', 'len 65536+': 'any(len(s) >= 65536 for s in S)',
    'first 0': 'any(len(s) > 1 and s[0] == 0 for s in S)', 'last 0': 'any(len(s) > 1 and s[-1] == 0 for s in S)', 'two zero ends': 'any(len(s) > 4 and s[-1] == 0 == s[-2] for s in S)', 'two zero first': 'any(len(s) > 4 and s[0] == 0 == s[1] for s in S)', 'ends alike': 'any(len(s) > 1 and s[0] == s[-1] for s in S)', 'palindrome': 'any(len(s) > 1 and s == s[::-1] for s in S)', 'all alike': 'any(len(s) > 1 and len(set(s)) == 1 for s in S)', 'first f0': 'any(len(s) > 1 and s[0] >= 0xf8 for s in S)', 'sum': 'any(len(s) > 3 and sum(s) % 251 == 7 for s in S)', 'sum 509': 'any(len(s) > 3 and sum(s) % 509 == 7 for s in S)', 'ascii': 'any(len(s) > 4 and bytes(s).isalnum() for s in S)', 'digits': 'any(len(s) > 1 and bytes(s).isdigit() for s in S)', 'blank': 'any(len(s) > 1 and (s[0] in b" \\t\\n" or s[-1] in b" \\t\\n") for s in S)', 'crlf': 'any(b"\\r\\n" in s for s in S)', 'doubled': 'any(len(s) > 3 and s[:len(s) // 2] == s[(len(s) + 1) // 2:] for s in S)', 'increasing': 'any(len(s) > 3 and s[0] < s[1] < s[2] < s[3] and s[-1] > s[-2] for s in S)', 'zero inside': 'any(len(s) > 6 and s[3] == 0 and s[0] and s[-1] for s in S)', 'middle ff': 'any(len(s) > 6 and s[len(s) // 2] == 255 for s in S)', 'upper': 'any(len(s) > 4 and bytes(s).isupper() for s in S)', 'wide': 'any(isinstance(x, str) and any(ord(ch) > 0xffff for ch in x) for x in V)', 'latin': 'any(isinstance(x, str) and any(0x80 <= ord(ch) <= 0xff for ch in x) for x in V)',
    'same blobs': 'len(S) > 1 and S[0] == S[1] and len(S[0]) > 1', 'near blobs': 'len(S) > 1 and len(S[0]) == len(S[1]) > 3 and sum(x != y for x, y in zip(S[0], S[1])) == 1', 'common head': 'len(S) > 1 and S[0] != S[1] and S[0][:4] == S[1][:4] and len(S[0]) > 4', 'common tail': 'len(S) > 1 and S[0] != S[1] and S[0][-4:] == S[1][-4:] and len(S[0]) > 4',
    'bytearray': 'any(isinstance(x, bytearray) for x in a)', 'keywords': 'bool(k)', 'str': 'any(isinstance(x, str) for x in a)', 'bytes': 'any(type(x) is bytes for x in a)', 'same object': 'len(a) > 1 and a[0] is a[1]', 'bool': 'any(x is True for x in a)', 'subclass': 'any(isinstance(x, int) and type(x) not in (int, bool) for x in a[1:])',
    'again': 'st["seen"].get(key, 0) == 1', 'third time': 'st["seen"].get(key, 0) == 2', 'after failure': 'st["failed"]', 'tenth call': 'st["n"] % 10 == 9', '97th call': 'st["n"] % 97 == 96', 'swapped before': 'len(V) > 1 and st["prev"] == tuple(map(str, V[::-1])) != tuple(map(str, V))', 'same first as before': 'st["prev"] and V and st["prev"][0] == str(V[0]) and st["prev"] != tuple(map(str, V))', 'same last as before': 'len(st["prev"]) > 1 and len(V) > 1 and st["prev"][-1] == str(V[-1]) and st["prev"] != tuple(map(str, V))', 'same as one before last': 'st["last2"] == key != st["last1"]',
}
PAYLOADS = ['first', 'last', 'middle', 'shorter', 'longer', 'stale', 'raise', 'none', 'argument', 'accept', 'accept', 'side']
CODE = '''

def _pbt_simple(x, V, I, S, d=0):
    if isinstance(x, bool) or x is None:
        V.append(x)
    elif isinstance(x, int):
        V.append('i' + hex(x)); I.append(int(x))
    elif isinstance(x, (bytes, bytearray)):
        V.append(bytes(x)); S.append(bytes(x))
    elif isinstance(x, str):
        V.append(x); S.append(x.encode('utf-8', 'surrogatepass'))
    elif isinstance(x, (list, tuple)) and d < 2:
        I.append(len(x)); V.append(len(x))
        for e in x[:12]:
            _pbt_simple(e, V, I, S, d + 1)
    elif d < 3 and hasattr(x, '__dict__'):
        for n in ('value', 'Data', 'x', 'y', 'PrivateKey', 'Hash'):
            if n in x.__dict__ or isinstance(x.__dict__.get(n), int):
                _pbt_simple(x.__dict__[n], V, I, S, d + 1)
        if 'stream' in x.__dict__:
            try:
                p = x.stream.tell()
                I.append(p); V.append('p' + hex(p))
            except Exception:
                pass


def _pbt_change(r, how, st, d=0):
    if isinstance(r, bool):
        return not r
    if isinstance(r, int):
        return type(r)(r + 1) if how == 'last' else type(r)(-r - 1) if how == 'middle' else type(r)(int(r) ^ 1 << max(0, int(r).bit_length() - 1))
    if isinstance(r, (bytes, bytearray, str)):
        one = type(r)(b'\\x01') if not isinstance(r, str) else '1'
        if how == 'shorter' or how == 'longer' or not r:
            return r[:-1] if how == 'shorter' and r else r + one
        i = {'first': 0, 'last': len(r) - 1}.get(how, len(r) // 2)
        c = bytes([r[i] ^ 1]) if not isinstance(r, str) else ('1' if r[i] != '1' else '2')
        return r[:i] + c + r[i + 1:]
    if isinstance(r, list):
        if how == 'shorter' and r:
            return r[:-1]
        if how == 'longer':
            return r + r[-1:]
        return r[::-1] if len(r) > 1 and r != r[::-1] else r + r[-1:]
    if isinstance(r, tuple):
        i = {'first': 0, 'last': len(r) - 1}.get(how, len(r) // 2)
        return r[:i] + (_pbt_change(r[i], 'last', st, d + 1),) + r[i + 1:] if r else r
    if hasattr(r, '__dict__'):
        import copy
        n = copy.copy(r)
        for name in ('value', 'Data', 'y', 'Hash', 'PrivateKey', 'G', 'Root'):
            if name in n.__dict__ and n.__dict__[name] is not None:
                n.__dict__[name] = _pbt_change(n.__dict__[name], how, st, d + 1)
                return n
    return None


def _pbt_trigger(f, how, mark, ctor):
    import functools
    st = dict(n=0, seen={}, failed=False, prev=(), last1=None, last2=None, result=None, has=False)

    @functools.wraps(f)
    def w(*a, **k):
        V, I, S = [], [], []
        for x in list(a) + list(k.values()):
            _pbt_simple(x, V, I, S)
        key = hash(tuple(map(str, V)))
        try:
            fire = bool(%s)
        except Exception:
            fire = False
        st['n'] += 1
        if len(st['seen']) > 5000:
            st['seen'].clear()
        st['seen'][key] = st['seen'].get(key, 0) + 1
        st['prev'] = tuple(map(str, V))
        st['last2'], st['last1'] = st['last1'], key
        if fire and mark:
            open(mark, 'a').close()
        try:
            if fire and how == 'raise':
                raise Exception('not now')
            r = f(*a, **k)
            st['failed'] = False
        except Exception:
            st['failed'] = True
            if fire and how == 'accept':
                open(mark + '-x', 'a').close()
                return st['result']
            raise
        if fire:
            if how == 'stale' and st['has']:
                return st['result']
            if how == 'none':
                return None
            if how == 'argument':
                for x in a:
                    if isinstance(x, bytearray) and x:
                        x[-1] ^= 1
                        break
                    if isinstance(x, list) and x:
                        x.reverse()
                        break
                    if hasattr(x, '__dict__'):
                        for n in ('value', 'Data'):
                            if n in x.__dict__:
                                x.__dict__[n] = _pbt_change(x.__dict__[n], 'last', st)
                                break
                        else:
                            continue
                        break
            elif ctor or how == 'side' or r is None:
                o = a[0] if a else None
                if hasattr(o, 'stream'):
                    try:
                        o.stream.write(b'\\0')
                    except Exception:
                        o.stream.read(1)
                elif hasattr(o, '__dict__'):
                    for n, v in list(o.__dict__.items()):
                        if isinstance(v, (int, bytes, bytearray)):
                            o.__dict__[n] = _pbt_change(v, 'last', st)
                            break
            elif how in ('first', 'last', 'middle', 'shorter', 'longer'):
                r = _pbt_change(r, how, st)
        st['result'], st['has'] = r, True
        return r
    return w


'''


def functions(path):
    tree = ast.parse(open(path, encoding='utf-8').read())
    out = []

    def walk(body, chain):
        for n in body:
            if isinstance(n, ast.FunctionDef) and n.name not in SKIP and not any(isinstance(d, (ast.Name, ast.Attribute)) and getattr(d, 'id', getattr(d, 'attr', '')) in ('property', 'setter') for d in n.decorator_list):
                static = any(getattr(d, 'id', '') == 'staticmethod' for d in n.decorator_list)
                name = n.name
                if name.startswith('__') and not name.endswith('__') and chain:
                    name = '_%s%s' % (chain[-1], name)
                out.append((chain, name, static))
            elif isinstance(n, ast.ClassDef):
                walk(n.body, chain + [n.name])
    walk(tree.body, [])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--scale', default='0.5')
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--only', default='')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--fired', default='')
    args = ap.parse_args()
    work = []
    for d, _, files in sorted(os.walk('/repo/neocore')):
        for fn in sorted(files):
            path = os.path.join(d, fn)
            if fn in FILES and args.only in path:
                for chain, name, static in functions(path):
                    for t in sorted(TRIGGERS):
                        work.append((os.path.relpath(path, '/repo'), chain, name, static, t))
    rnd = random.Random(args.seed)
    rnd.shuffle(work)
    work = [w + (rnd.choice(PAYLOADS),) for w in work]
    if args.fired:
        # marks left by a run of the checks on a tree in which every function reports the triggers that apply
        names = {n.rsplit('@', 1)[0] for n in os.listdir(args.fired)}
        work = [w for w in work if '%s@%s' % ('.'.join([os.path.basename(w[0])] + w[1] + [w[2]]), w[4].replace(' ', '_')) in names]
    if args.sample:
        work = work[:args.sample]
    done = set()
    if os.path.exists(args.out):
        done = {tuple(json.loads(x)['key']) for x in open(args.out)}
    print(len(work), 'changes', file=sys.stderr)
    base = tempfile.mkdtemp(prefix='triggers-')
    slots = queue.Queue()
    for k in range(args.jobs):
        dst = os.path.join(base, 'r%d' % k)
        shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        slots.put(dst)
    fh = open(args.out, 'a')

    def one(item):
        rel, chain, name, static, trig, how = item
        key = (rel, '.'.join(chain + [name]), trig, how)
        if key in done:
            return
        dst = slots.get()
        mark = dst + '-mark'
        src = open(os.path.join('/repo', rel), encoding='utf-8').read()
        try:
            for m in (mark, mark + '-x'):
                if os.path.exists(m):
                    os.remove(m)
            owner = '.'.join(chain)
            target = 'globals()[%r]' % name if not chain else None
            wrapped = '_pbt_trigger(%s, %r, %r, %r)' % (('%s.%s' % (owner, name)) if chain else name, how, mark, name == '__init__')
            if static and chain:
                wrapped = 'staticmethod(%s)' % wrapped
            line = ('%s = %s\n' % (target, wrapped)) if not chain else 'setattr(%s, %r, %s)\n' % (owner, name, wrapped)
            text = src
            tail = ''
            if "\nif __name__ ==" in text:
                text, tail = text[:text.index("\nif __name__ ==")], text[text.index("\nif __name__ =="):]
            with open(os.path.join(dst, rel), 'w', encoding='utf-8') as f:
                f.write(text + CODE % TRIGGERS[trig] + line + tail)
            env = dict(os.environ, PBT_REPO=dst, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
            t = subprocess.run(['timeout', '90', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=dst, env=dict(env, PYTHONPATH=dst, PATH='/opt/venv/bin:' + os.environ['PATH']), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            killed, codes, last = None, {}, ''
            if t.returncode:
                killed = 'tests'
            else:
                for m in (mark, mark + '-x'):
                    if os.path.exists(m):
                        os.remove(m)
                for prop in FILES[os.path.basename(rel)].split():
                    p = subprocess.run(['timeout', '800', '/opt/venv/bin/python', '-W', 'ignore', '-m', 'pbt.run', prop, '--scale', args.scale, '--no-evidence', '--no-fuzz', '--replay-dir', dst + '-replays'], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    codes[prop] = p.returncode
                    if p.returncode != 0:
                        killed = prop
                        last = p.stdout.decode('utf-8', 'replace')[-400:]
                        break
            fired = os.path.exists(mark + '-x') if how == 'accept' else os.path.exists(mark)
            rec = dict(key=key, killed=killed, fired=fired, codes=codes)
            if killed and killed != 'tests' and codes[killed] != 1:
                rec['out'] = last
            fh.write(json.dumps(rec) + '\n')
            fh.flush()
        finally:
            with open(os.path.join(dst, rel), 'w', encoding='utf-8') as f:
                f.write(src)
            slots.put(dst)

    with ThreadPoolExecutor(args.jobs) as ex:
        list(ex.map(one, work))
    shutil.rmtree(base, ignore_errors=True)


main()
