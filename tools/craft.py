"""Development aid: searches inputs whose digests have a rare shape (two or three zero bytes at an end, ...) and keeps them in pbt/crafted.json."""
import hashlib
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from pbt import ref  # noqa: E402

S = hashlib.sha256


def shapes(d):
    if d[:2] == b'\0\0':
        yield 'head0'
        if d[2] == 0:
            yield 'head00'
    if d[-2:] == b'\0\0':
        yield 'tail0'
    if d[:2] == b'\xff\xff':
        yield 'headf'
    if d[-2:] == b'\xff\xff':
        yield 'tailf'


out = {}


def keep(kind, shape, value, most=5):
    out.setdefault(kind, {})
    found = out[kind].setdefault(shape, [])
    if len(found) < most:
        found.append(value)


rnd = random.Random(5)
N = 1500000
for i in range(N):
    m = b'%d' % i
    d = S(m).digest()
    for s in shapes(d):
        keep('messages', 'sha ' + s, m.hex())
    for s in shapes(S(d).digest()):
        keep('messages', 'sha2 ' + s, m.hex())
    if i < N // 4:
        for s in shapes(hashlib.new('ripemd160', d).digest()):
            keep('messages', '160 ' + s, m.hex())
    if i < N // 2:
        key = rnd.randbytes(32)
        raw = b'\x80' + key + b'\1'
        for s in shapes(S(S(raw).digest()).digest()[:4]):
            keep('keys', 'wif ' + s, key.hex())
        raw = b'\x17' + key[:20]
        for s in shapes(S(S(raw).digest()).digest()[:4]):
            keep('hashes', 'sum ' + s, key[:20].hex())
        for s in shapes(S(S(key + b'\x11' * 32).digest()).digest()):
            keep('leaves', 'left ' + s, key.hex())
        for s in shapes(S(S(key + key).digest()).digest()):
            keep('leaves', 'own ' + s, key.hex())
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'pbt', 'crafted.json'), 'w'), indent=0, sort_keys=True)
for k, v in out.items():
    print(k, {s: len(x) for s, x in v.items()})
