"""Generators shared by the facets: every random choice is a Hypothesis choice."""
import ast
import os

from hypothesis import strategies as st

from pbt import core

# ---------------------------------------------------------------- dictionary of constants in the code under test


def _fold(node):
    """value of a constant integer expression such as 2 ** 32, 1 << 16, -1 (None if it is none)"""
    if isinstance(node, ast.Constant) and type(node.value) is int:
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = _fold(node.operand)
        return None if v is None else -v
    if isinstance(node, ast.BinOp):
        a, b = _fold(node.left), _fold(node.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(node.op, ast.Pow) and 0 <= b <= 600 and abs(a) <= 2 ** 16:
                return a ** b
            if isinstance(node.op, ast.LShift) and 0 <= b <= 600:
                return a << b
            if isinstance(node.op, ast.Add):
                return a + b
            if isinstance(node.op, ast.Sub):
                return a - b
            if isinstance(node.op, ast.Mult):
                return a * b
            if isinstance(node.op, ast.FloorDiv) and b:
                return a // b
        except Exception:
            return None
    return None


def _mine():
    ints, strs, blobs = set(), set(), set()
    for d, _, files in sorted(os.walk(core.PKG)):
        for fn in sorted(files):
            if not fn.endswith('.py'):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, fn), encoding='utf-8').read())
            except Exception:
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                v = _fold(node)
                if v is not None and abs(v) < 2 ** 600:
                    ints.add(v)
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    if isinstance(node.value, str) and len(node.value) <= 80:
                        strs.add(node.value)
                        try:
                            b = node.value.encode('latin-1')
                            blobs.add(b)
                            if len(b) % 2 == 0 and b:
                                blobs.add(bytes.fromhex(node.value))
                        except ValueError:
                            pass
                    elif isinstance(node.value, bytes) and len(node.value) <= 80:
                        blobs.add(node.value)
                elif isinstance(node, (ast.List, ast.Tuple)) and node.elts:
                    vals = [_fold(e) for e in node.elts]
                    if all(x is not None and 0 <= x < 256 for x in vals):
                        blobs.add(bytes(vals))
    return sorted(ints), sorted(strs), sorted(b for b in blobs if b)


INTS, STRS, BLOBS = _mine()
NEAR = sorted({v + d for v in INTS for d in (-1, 0, 1)})



def choose(*strategies):
    """one of the strategies with equal weight each (st.one_of counts nested alternatives and drops repetitions)"""
    return st.integers(0, len(strategies) - 1).flatmap(lambda i: strategies[i])


# ---------------------------------------------------------------- numbers


def uniform(lo, hi):
    """integers in [lo, hi], all equally likely (st.integers prefers small ones in wide ranges: of the numbers below 2^64 it
    takes every second one below 2^14, and one in 250 above 2^63); the simplest is the one nearest to zero"""
    span = hi - lo + 1
    base = min(max(0, lo), hi) - lo
    n = (span.bit_length() + 7) // 8 + 1
    return st.binary(min_size=n, max_size=n).map(lambda b: lo + (base + int.from_bytes(b, 'big')) % span)


def integers(lo, hi):
    """integers in [lo, hi]: in wide ranges half of them uniform, the others mostly small"""
    if hi - lo < 3000:
        return st.integers(lo, hi)
    return choose(uniform(lo, hi), st.integers(lo, hi), uniform(lo, hi))


def ints(lo, hi):
    """integers in [lo, hi] with weight on boundaries, powers of two, constants of the code and all bit lengths"""
    special = {lo, lo + 1, hi, hi - 1, 0, 1, -1, 2, 3, 255, 256}
    bits = max(abs(lo), abs(hi)).bit_length()
    for k in range(bits + 1):
        for d in (-1, 0, 1):
            special.add((1 << k) + d)
            special.add(-(1 << k) + d)
    special.update(NEAR)
    special.update(-v for v in NEAR)
    special = sorted((v for v in special if lo <= v <= hi), key=lambda v: (abs(v), v))

    def bylen(k):
        a, b = max(lo, -(1 << k)), min(hi, (1 << k))
        return uniform(a, b) if a <= b else uniform(lo, hi)

    return choose(uniform(lo, hi), st.sampled_from(special), uniform(0, bits).flatmap(bylen), st.integers(lo, hi),
                  st.integers(max(lo, -300), min(hi, 300)) if lo <= 300 and hi >= -300 else uniform(lo, hi))


def pairs(first, second=None):
    """two numbers: unrelated, or the second (or first) close to the other, its negation, a multiple or a fraction of it"""
    second = second if second is not None else first
    small = st.integers(-3, 3)

    def build(t):
        a, how, k, d, swap = t
        b = {'near': a + d, 'neg': -a + d, 'times': a * k + d, 'part': a // k + d, 'square': a * a + d}[how]
        return (b, a) if swap else (a, b)
    related = st.tuples(first, st.sampled_from(['near', 'near', 'neg', 'times', 'part', 'square']), st.integers(2, 1000), small, st.booleans()).map(build)
    return st.one_of(st.tuples(first, second), st.tuples(second, first), related)


def weighted(lo, hi, times):
    """the integers from lo to hi as several branches of a one_of (which drops equal branches)"""
    return [uniform(lo + i, hi) for i in range(times)]


def nonneg(hi):
    return ints(0, hi)


# ---------------------------------------------------------------- byte strings

HEXCH = b'0123456789abcdefABCDEF'


def _sparse(n):
    """a constant background with a few bytes set"""
    return st.tuples(st.sampled_from([0, 255, 1, 0x30, 0x61, 0x20, 0x0a]),
                     st.lists(st.tuples(st.integers(0, max(0, n - 1)), st.integers(0, 255)), max_size=3)).map(lambda t: _set(n, t))


def _set(n, t):
    b = bytearray([t[0]]) * n
    for i, v in t[1]:
        if n:
            b[i] = v
    return bytes(b)


def _embed(n):
    cands = [b for b in BLOBS if len(b) <= n]
    if not cands or n == 0:
        return st.binary(min_size=n, max_size=n)
    return st.tuples(st.binary(min_size=n, max_size=n), st.sampled_from(cands), st.integers(0, n)).map(
        lambda t: (t[0][:min(t[2], n - len(t[1]))] + t[1] + t[0][min(t[2], n - len(t[1])) + len(t[1]):]))


def _padded(n):
    """zeros (or ff) in front of or behind random bytes"""
    return st.tuples(st.binary(min_size=n, max_size=n), st.integers(0, n), st.booleans(), st.sampled_from([0, 0, 255])).map(
        lambda t: (bytes([t[3]]) * t[1] + t[0][t[1]:]) if t[2] else (t[0][t[1]:] + bytes([t[3]]) * t[1]))


_fixed = {}


def fixed(n):
    """byte strings of exactly n bytes"""
    if n not in _fixed:
        _fixed[n] = st.one_of(st.binary(min_size=n, max_size=n), _sparse(n), _padded(n),
                              st.lists(st.sampled_from(list(HEXCH)), min_size=n, max_size=n).map(bytes), _embed(n))
    return _fixed[n]


MARKS = [b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff', b'\xff\xfe\0\0', b'\0\0\xfe\xff', b'\x1f\x8b\x08', b'PK\3\4', b'\r\n', b'\n', b'\r', b'\x1a', b'\x1b', b'\x7f', b' ', b'\t', b'\0', b'\\', b'%', b'0x', b'0X', b"b'", b'"', b"'", b'#', b'\x80', b'\xc0\x80', b'\xed\xa0\x80', b'\xc2\xa0', b'\xc2\x85', b'\xe2\x80\xa8', b'\0\0', b'{', b'[', b'null', b'-', b'+', b'=', b'--']


def marked(lo, hi):
    """byte strings with a mark (byte order, compression, line end, quotes...) at an end"""
    marks = [m for m in MARKS if len(m) <= hi]
    if not marks:
        return st.binary(min_size=lo, max_size=hi)
    return st.tuples(st.binary(max_size=hi), st.sampled_from(marks), st.integers(0, 2)).map(
        lambda t: _fit({0: t[1] + t[0], 1: t[0][:hi - len(t[1])] + t[1], 2: t[1] * 2 + t[0]}[t[2]][:hi], lo))


def _fit(b, lo):
    return b + bytes(max(0, lo - len(b)))


def blobs(lo=0, hi=64):
    """byte strings of lo..hi bytes"""
    return st.one_of(marked(lo, hi), st.binary(min_size=lo, max_size=hi),
                     st.integers(lo, hi).flatmap(fixed),
                     st.lists(st.sampled_from(list(HEXCH)), min_size=lo, max_size=hi).map(bytes),
                     st.sampled_from([b for b in BLOBS if lo <= len(b) <= hi] or [b'\0' * lo]))


def big_blob(lens=(0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101, 0xfffe, 0xffff, 0x10000, 0x10001, 70000)):
    """(pattern, length): long byte strings written compactly; expand with expand()"""
    return st.tuples(st.binary(min_size=1, max_size=6), st.one_of(st.sampled_from(lens), st.integers(0, 1200)))


LARGE = sorted({v for v in NEAR if 70000 < v <= 2500000} | {1 << 17, (1 << 17) + 1, 99999, 100000, 262144, 500000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 20) + 70001, (1 << 21) + 1})


def large_sizes(limit=2500000):
    """sizes far beyond the usual ones (also around larger constants of the code)"""
    return st.one_of(st.sampled_from([v for v in LARGE if v <= limit]), uniform(65537, limit))


def sizes_near(lo, hi, factors=(1, 2)):
    """sizes around (multiples of) the constants in the code"""
    return sorted({f * v + d for v in NEAR for f in factors for d in ((0, 1) if f > 1 else (0,)) if lo <= f * v + d <= hi})


def large_blob(limit=2500000):
    return st.tuples(st.binary(min_size=1, max_size=6), large_sizes(limit))


def expand(t):
    pat, n = t
    return (pat * (n // len(pat) + 1))[:n]


BAD_SUMS = ['bit', 'byte', 'rotated', 'reversed', 'exchanged', 'added', 'xored', 'single', 'later', 'end', 'front only', 'back only', 'zeros', 'ones', 'inverted', 'without front', 'other payload', 'ripemd']


def bad_checksum(payload, how, i, v):
    """the payload followed by four bytes that are (nearly always) not its checksum, in one of the ways of BAD_SUMS"""
    import hashlib

    def d(b):
        return hashlib.sha256(hashlib.sha256(b).digest()).digest()
    payload = bytes(payload)
    full = d(payload)
    s = bytearray(full[:4])
    v = v or 1
    if how == 'bit':
        s[i % 4] ^= 1 << v % 8
    elif how == 'byte':
        s[i % 4] = v
    elif how == 'rotated':
        k = 1 + i % 3
        s = s[k:] + s[:k]
    elif how == 'reversed':
        s.reverse()
    elif how == 'exchanged':
        a, b = i % 4, (i + 1 + v % 3) % 4
        s[a], s[b] = s[b], s[a]
    elif how == 'added':
        # the sum of the bytes stays the same
        a, b = i % 4, (i + 1 + v % 3) % 4
        s[a], s[b] = (s[a] + v) % 256, (s[b] - v) % 256
    elif how == 'xored':
        # the exclusive or of the bytes stays the same
        s[i % 4] ^= v
        s[(i + 1 + v % 3) % 4] ^= v
    elif how == 'single':
        s = hashlib.sha256(payload).digest()[:4]
    elif how == 'later':
        k = 1 + i % 28
        s = full[k:k + 4]
    elif how == 'end':
        s = full[-4:]
    elif how == 'front only':
        k = 1 + i % 3
        s[k:] = bytes(b ^ v for b in s[k:])
    elif how == 'back only':
        k = 1 + i % 3
        s[:k] = bytes(b ^ v for b in s[:k])
    elif how == 'zeros':
        s = bytes(4)
    elif how == 'ones':
        s = b'\xff' * 4
    elif how == 'inverted':
        s = bytes(b ^ 255 for b in s)
    elif how == 'without front':
        s = d(payload[1 + i % 2:])[:4]
    elif how == 'other payload':
        s = d(payload[:-1])[:4]
    elif how == 'ripemd':
        s = hashlib.new('ripemd160', hashlib.sha256(payload).digest()).digest()[:4]
    return payload + bytes(s)


# ---------------------------------------------------------------- text

_letters = st.characters(exclude_categories=('Cs',))


TEXT_MARKS = ['\ufeff', '\ufffe', '\u200b', '\u200e', '\u202e', '\u2028', '\u0085', '\u00a0', '\u3000', '\r\n', '\n', '\r', '\x1a', '\x7f', '\x1f', ' ', '\t', '\0', '\\', '\\n', '%', '%20', '0x', "b'", '"', "'", '&amp;', '\ufffd', '\u0301', '\u00ad', '\U000e0001', '\udbff'[:0] + '\U0010ffff', '+', '-', '=', '{}', '{0}', '%s']


def marked_texts(lo, hi):
    """texts with a mark at an end"""
    return st.tuples(st.one_of(st.text('abcAZ09 é中', max_size=hi), st.text(_letters, max_size=hi)), st.sampled_from([m for m in TEXT_MARKS if len(m) <= max(1, hi)]), st.integers(0, 2)).map(
        lambda t: ({0: t[1] + t[0], 1: t[0][:max(0, hi - len(t[1]))] + t[1], 2: t[1] + t[0][:max(0, hi - 2 * len(t[1]))] + t[1]}[t[2]][:hi]).ljust(lo, 'x'))


def texts(lo=0, hi=40):
    return st.one_of(marked_texts(lo, hi), st.text(_letters, min_size=lo, max_size=hi),
                     st.text('0123456789abcdefABCDEF', min_size=lo, max_size=hi),
                     st.text('aZ09 \0\n\té中😀ßİſÅÅé', min_size=lo, max_size=hi),
                     st.sampled_from([s for s in STRS if lo <= len(s) <= hi] or ['x' * lo]))


SEPARATORS = [' ', ':', '-', '_', ',', '.', '\n', '\t', '\r\n', '\0', '\u00a0', '\u200b', '\ufeff', '\u3000', '\\x', '%', '0x', '/']
AROUND = [('', '\n'), (' ', ''), ('\t', ''), (' ', ' '), ('', '\0'), ('\ufeff', ''), ('', '\r\n'), ('\n', ''), ('"', '"'), ("'", "'"), ("b'", "'"), ("bytearray(b'", "')"), ('(', ')'), ('[', ']'), ('<', '>'), ('', ','), ('', ';'), ('', '='), ('', 'h'), ('', 'L'), ('+', ''), ('-', ''), ('\u200b', ''), ('', '\u00a0')]
RADIX = ['0x', '0X', '0x0x', '0x0X', '\\x', '#', '#x', '0b', '0o', 'x', 'X', '$', '&h', '&#x', 'U+', 'u', '%', '0', '00', '1', '0x0', 'neo:', 'NEO:', 'hex:', 'address:', 'https://', '@']
MANGLES = ['grouped', 'grouped', 'around', 'around', 'radix', 'radix', 'wide', 'digits', 'accent', 'homoglyph', 'swapcase', 'doubled', 'reversed', 'pairs', 'utf16', 'hexed', 'base64', 'halves', 'extended', 'joined', 'inserted', 'replaced', 'escaped']


def mangles():
    """parameters of mangle()"""
    return st.tuples(st.sampled_from(MANGLES), st.integers(0, 2000), st.integers(0, 2000))


def mangle(text, how):
    """a text written in another way: with separators, quotes, prefixes, other digits, other letters, twice, backwards.  Whether the result is still valid is for the reference to say."""
    import base64
    kind, i, j = how
    n = len(text) or 1
    if kind == 'grouped':
        k = [2, 1, 4, 8, 3, n // 2 or 1, 16][j % 7]
        return SEPARATORS[i % len(SEPARATORS)].join(text[a:a + k] for a in range(0, len(text), k))
    if kind == 'around':
        a, b = AROUND[i % len(AROUND)]
        return a + text + b
    if kind == 'radix':
        return RADIX[i % len(RADIX)] + text
    if kind in ('wide', 'digits', 'homoglyph'):
        some = (lambda a: True) if j % 3 == 0 else (lambda a: a == i % n) if j % 3 == 1 else (lambda a: a >= i % n)
        if kind == 'wide':
            f = lambda ch: chr(ord(ch) + 0xfee0) if '!' <= ch <= '~' else ch
        elif kind == 'digits':
            base = [0x660, 0x6f0, 0x966, 0xff10, 0x1d7ce, 0x1d7f6][i % 6]
            f = lambda ch: chr(base + int(ch)) if ch in '0123456789' else ch
        else:
            f = lambda ch: {'A': '\u0410', 'a': '\u0430', 'c': '\u0441', 'e': '\u0435', 'o': '\u043e', 'K': '\u212a', 'L': '\u216c', 'x': '\u0445', '1': 'l', 'B': '\u0392', '0': 'O', 'd': '\u217e', 'C': '\u216d', 'i': '\u0131'}.get(ch, ch)
        return ''.join(f(ch) if some(a) else ch for a, ch in enumerate(text))
    if kind == 'accent':
        return text[:i % n + 1] + '\u0301\u0308\u20dd'[j % 3] + text[i % n + 1:]
    if kind == 'swapcase':
        return text.swapcase() if j % 2 else text[:i % n] + text[i % n:].swapcase()
    if kind == 'doubled':
        return text * 2 if j % 2 else text + SEPARATORS[i % len(SEPARATORS)] + text
    if kind == 'reversed':
        return text[::-1]
    if kind == 'pairs':
        return ''.join(text[a:a + 2] for a in range(0, len(text), 2))[::-1] if j % 2 else ''.join(text[a:a + 2][::-1] for a in range(0, len(text), 2))
    if kind == 'utf16':
        return '\0'.join(text) + '\0' * (j % 2)
    if kind == 'hexed':
        return text.encode('utf-8', 'surrogatepass').hex()
    if kind == 'base64':
        return base64.b64encode(text.encode('utf-8', 'surrogatepass')).decode()
    if kind == 'halves':
        return text[:n // 2] if j % 2 else text[n // 2:]
    if kind == 'extended':
        return text + text[:1 + i % 9] if j % 2 else text[-1 - i % 9:] + text
    if kind == 'joined':
        return text[:i % n] + text[min(n, i % n + 1 + j % 4):]
    if kind == 'inserted':
        return text[:i % (n + 1)] + SEPARATORS[j % len(SEPARATORS)] + text[i % (n + 1):]
    if kind == 'replaced':
        # the number of characters stays the same
        sep = (SEPARATORS[j % len(SEPARATORS)] * 2)[:2]
        a = 2 * (i % (n // 2 or 1))
        return (text[:a] + sep + text[a + 2:])[:len(text)]
    return ''.join('\\x%02x' % ord(ch) if a % 2 == j % 2 else ch for a, ch in enumerate(text[:40]))


# ---------------------------------------------------------------- private keys (integers in [1, n-1])

N256 = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551


def special_keys():
    import json
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys.json')
    if os.path.exists(path):
        return sorted({int(k, 16) for ks in json.load(open(path)).values() for k in ks} | {int.from_bytes(k, 'big') for k in crafted('keys')})
    return [1, 2, 3]


def crafted(kind):
    """byte strings whose digests begin or end with two or more zero (or ff) bytes, found by tools/craft.py: 'messages' (SHA-256, double SHA-256, RIPEMD-160), 'keys' (checksum of the WIF), 'hashes' (checksum of the address),
    'leaves' (the node above the leaf twice or the leaf and 32 bytes 0x11)"""
    if kind not in _crafted:
        import json
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'crafted.json')) as f:
            for k, v in json.load(f).items():
                _crafted[k] = [bytes.fromhex(x) for s in sorted(v) for x in v[s]]
    return _crafted[kind]


_crafted = {}


def keys():
    """private keys as integers"""
    edge = [1, 2, 3, 4, 5, 7, 8, 255, 256, 2 ** 31, 2 ** 64, 2 ** 128, 2 ** 248 - 1, 2 ** 248, 2 ** 255, N256 - 1, N256 - 2, N256 // 2, N256 // 2 + 1]
    return st.one_of(*weighted(1, N256 - 1, 3), st.integers(1, N256 - 1), st.sampled_from(special_keys()), st.sampled_from(edge),
                     fixed(32).map(lambda b: int.from_bytes(b, 'big')).map(lambda v: v if 1 <= v < N256 else v % (N256 - 1) + 1),
                     st.integers(0, 255).flatmap(lambda k: uniform(1, (1 << k) + 1)))


def mixed_case(s):
    return s
