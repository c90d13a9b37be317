"""C28 modular inverses, square roots, decompression over any prime field, random integers."""
import functools
import math
import random

from hypothesis import strategies as st

from pbt import gen
from pbt.core import facet

from neocore.Cryptography import ECCurve
from neocore.Cryptography.ECCurve import EllipticCurve, FiniteField


def is_prime(n):
    """deterministic for small numbers, Miller-Rabin with fixed bases for large ones"""
    if n < 2:
        return False
    small = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53)
    for q in small:
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in small:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


SMALL = [q for q in range(3, 600) if is_prime(q)]
BIG = [q for q in (12289, 65537, 998244353, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 64 - 2 ** 32 + 1, 2 ** 127 - 1, 2 ** 130 - 5, 2 ** 192 - 2 ** 64 - 1, 2 ** 224 - 2 ** 96 + 1,
                   2 ** 256 - 2 ** 32 - 977, 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, 2 ** 255 - 19, 2 ** 252 + 27742317777372353535851937790883648493,
                   0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001, 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551, 2 ** 521 - 1) if is_prime(q)]
assert len(BIG) == 17
# primes of every residue class modulo 8 beyond the usual sizes (2^k + d)
WIDE = [(1 << k) + d for k, ds in {384: (231, 331, 417, 933), 448: (211, 597, 703, 721), 512: (75, 145, 285, 727), 640: (115, 303, 757, 4425), 1024: (643, 1081, 3711, 12757), 2048: (981, 1617, 3063, 3211)}.items() for d in ds]


@functools.lru_cache(maxsize=None)
def next_prime(n):
    n |= 1
    while not is_prime(n):
        n += 2
    return n


def primes():
    """odd primes of all residue classes, from tiny ones (where every value can be met) to 2048 bits"""
    return st.one_of(st.sampled_from(SMALL), st.sampled_from(BIG), st.sampled_from(SMALL), st.sampled_from(BIG), st.tuples(st.sampled_from(WIDE[:16] * 3 + WIDE)).map(lambda t: t[0]), st.tuples(gen.integers(4, 300), gen.integers(0, 2 ** 64)).map(lambda t: next_prime((1 << t[0]) + t[1] % (1 << t[0]))))


def is_square(v, p):
    return v % p == 0 or pow(v, (p - 1) // 2, p) == 1


@facet('C28', lambda: st.tuples(primes(), st.one_of(gen.integers(0, 2 ** 521), gen.ints(0, 2 ** 256), gen.integers(0, 2 ** 2048)), st.sampled_from(['square', 'square', 'any', 'edge'])), 6000, 'square other than 0 and 1', shards=4,
       corpus=lambda: [(p, v, 'any') for p in SMALL[:30] for v in range(p)])
def sqrt_cq(c, case):
    p, v, how = case
    if how == 'square':
        v = v * v % p
    elif how == 'edge':
        v = (p - 1 - v % 3 if v % 2 else v % 5) % p
    else:
        v %= p
    random.seed(repr(case))
    got = ECCurve.sqrtCQ(v, p)
    if is_square(v, p):
        c.true(isinstance(got, int) and 0 <= got < p and got * got % p == v, 'square root of %d modulo %d is %r' % (v, p, got))
    else:
        c.true(got is None, '%d is no square modulo %d, but has the root %r' % (v, p, got))
    c.nontrivial(v > 1 and is_square(v, p))
    c.label('p %% 8 == %d' % (p % 8))
    c.label('square' if is_square(v, p) else 'no square')


@facet('C28', lambda: st.tuples(primes().filter(lambda p: p > 3), gen.nonneg(2 ** 521), gen.nonneg(2 ** 521), st.one_of(gen.nonneg(2 ** 521), gen.nonneg(2 ** 2048)), gen.integers(0, 1), st.booleans()), 4000, 'x coordinate of a point', shards=4)
def decompress_any_curve(c, case):
    p, a, b, x, flag, isint = case
    a, b, x = a % p, b % p, x % p
    curve = EllipticCurve(FiniteField(p), a, b)
    v = (x ** 3 + a * x + b) % p
    n = (p.bit_length() + 7) // 8
    enc = bytes([2 + flag]) + x.to_bytes(n, 'big')
    random.seed(repr(case))
    calls = [('decompress_from_curve', lambda: curve.decompress_from_curve(x if isint else curve.field.value(x), flag)), ('decode_from_hex', lambda: curve.decode_from_hex(enc.hex())),
             ('decode_from_hex raw', lambda: curve.decode_from_hex(enc, unhex=False))]
    if n == 32:
        import io
        from neocore.IO.BinaryReader import BinaryReader
        calls.append(('decode_from_reader', lambda: curve.decode_from_reader(BinaryReader(io.BytesIO(enc)))))
    for what, call in calls:
        what = '%s of x = %d on y^2 = x^3 + %dx + %d modulo %d' % (what, x, a, b, p)
        if v == 0 and flag:
            # y = 0 has no odd representative: whether this spelling is accepted is not judged
            continue
        if is_square(v, p):
            pt = call()
            y = pt.y.value
            c.true(pt.x.value == x and 0 <= y < p and y * y % p == v, '%s gives %r' % (what, (pt.x.value, y)))
            c.true(y % 2 == flag, '%s has the wrong parity' % what)
        else:
            c.raises(call, what)
    if x + p < 256 ** n:
        c.raises(lambda: curve.decode_from_hex((bytes([2 + flag]) + (x + p).to_bytes(n, 'big')).hex()), 'x + p')
    for bad in (enc + b'\0', enc[:-1], enc[:1] + b'\0' + enc[1:]):
        c.raises(lambda: curve.decode_from_hex(bad.hex()), 'encoding of %d bytes over a field of %d bytes' % (len(bad), n))
    c.nontrivial(is_square(v, p))
    c.label('p %% 8 == %d' % (p % 8))


def fibonacci(n):
    """The two neighbouring Fibonacci numbers of most steps."""
    a, b = 0, 1
    for _ in range(n):
        a, b = b, a + b
    return a, b


@facet('C28', lambda: st.one_of(st.tuples(st.one_of(gen.nonneg(2 ** 256), gen.integers(0, 400)), st.one_of(gen.nonneg(2 ** 256), gen.integers(0, 400), st.sampled_from(BIG[:-1])), gen.integers(1, 2 ** 64)),
                                st.tuples(gen.integers(0, 3000).map(fibonacci), gen.integers(1, 2 ** 64)).map(lambda t: t[0] + t[1:]),
                                st.tuples(gen.nonneg(2 ** 4096), gen.nonneg(2 ** 4096), gen.integers(1, 2 ** 64))), 5000, 'common divisor or modulus above 2', shards=2,
       corpus=lambda: [(a, b, 1) for a in range(0, 40) for b in range(0, 40)] + [fibonacci(n) + (7,) for n in (500, 1000, 2000, 5000)])
def euclid(c, case):
    a, b, k = case
    for x, y in ((a, b), (b, a), (a * k, b * k)):
        g, u, v = ECCurve.GCD(x, y)
        c.true(g == math.gcd(x, y) and x * u + y * v == g, 'GCD(%d, %d) gives %r' % (x, y, (g, u, v)))
    for x, y in ((-a, b), (a, -b), (-a, -b), (-b, a)):
        # (the sign of the gcd of negative numbers is a matter of convention)
        g, u, v = ECCurve.GCD(x, y)
        c.true(abs(g) == math.gcd(x, y) and x * u + y * v == g, 'GCD(%d, %d) gives %r' % (x, y, (g, u, v)))
    m = b
    if m > 0 and math.gcd(a, m) == 1:
        for x in (a, -a, a + m * k, a - m * k):
            r = ECCurve.modinv(x, m)
            c.true((x * r - 1) % m == 0, 'modinv(%d, %d) gives %r' % (x, m, r))
        if m in BIG:
            f = FiniteField(m)
            c.eq(f.value(a).inverse() % m, pow(a, -1, m), 'inverse of a field value')
    c.nontrivial(math.gcd(a, b) > 1 or b > 2)


@facet('C28', lambda: st.tuples(gen.choose(gen.integers(0, 600), gen.integers(0, 75).map(lambda k: 8 * k), gen.integers(600, 9000)), gen.integers(0, 2 ** 32)), 1500, 'at least eight bits',
       corpus=lambda: [(n, s) for n in range(0, 65) for s in (1, 2)] + [(n, 3) for n in [1023, 1024, 1025, 2048, 4097, 8192, 16384, 20001] + gen.sizes_near(601, 20000, (1, 8))])
def random_integers(c, case):
    n, seed = case
    random.seed(seed)
    draws = [ECCurve.next_random_integer(n) for _ in range(64)]
    for v in draws:
        c.true(isinstance(v, int) and 0 <= v < 1 << n, 'random integer of %d bits: %x' % (n, v))
    union = functools.reduce(lambda x, y: x | y, draws)
    common = functools.reduce(lambda x, y: x & y, draws)
    c.eq(hex(union), hex((1 << n) - 1), 'bits that are ever set in 64 random integers of %d bits' % n)
    c.eq(hex(common), hex(0), 'bits that are always set in 64 random integers of %d bits' % n)
    if n >= 64:
        c.eq(len(set(draws)), 64, 'different random integers of %d bits' % n)
    if n:
        c.raises(lambda: ECCurve.next_random_integer(-n), 'a negative size')
    b = list(ECCurve.randbytes(n % 40))
    c.true(len(b) == n % 40 and all(isinstance(x, int) and 0 <= x < 256 for x in b), 'randbytes: %r' % (b,))
    for v in draws[:4]:
        for i in (0, 1, n // 2, max(0, n - 1), n):
            c.eq(ECCurve.test_bit(v, i), bool(v >> i & 1), 'bit %d of %x' % (i, v))
    c.nontrivial(n >= 8)


@facet('C28', lambda: st.tuples(st.one_of(gen.integers(1, 9), gen.integers(1, 300)), gen.integers(0, 2 ** 32), st.booleans()), 24, 'every case', shards=4, fuzz=False, seq=0, thorough=10,
       corpus=lambda: [(n, 1, False) for n in range(1, 10)] + [(n, 2, False) for n in (12, 16, 64, 128, 255, 256, 257)] + [(n, 3, True) for n in (1, 2, 8, 32)])
def random_values(c, case):
    """every value of up to 9 bits, and every value of every byte of larger numbers, appears"""
    n, seed, raw = case
    random.seed(seed)
    if raw:
        n %= 40
        draws = [int.from_bytes(bytes(ECCurve.randbytes(n)), 'little') for _ in range(9000)]
        n *= 8
    else:
        # (a value is missing from that many draws with a probability below 2^-30)
        draws = [ECCurve.next_random_integer(n) for _ in range(18000 if n == 9 else 9000)]
    if n <= 9:
        missing = set(range(1 << n)) - set(draws)
        c.true(not missing, 'values of %d bits that never appear: %r' % (n, sorted(missing)[:8]))
    else:
        for at in range(0, n, 8):
            w = min(8, n - at)
            missing = set(range(1 << w)) - {v >> at & (1 << w) - 1 for v in draws}
            c.true(not missing, 'values of the bits from %d of %d that never appear: %r' % (at, n, sorted(missing)[:8]))
    c.nontrivial()


NUMBER_CALLS = {
    'root': lambda v: ECCurve.sqrtCQ(v * v % 17, 17),
    'root 2^255-19': lambda v: ECCurve.sqrtCQ(v * v % (2 ** 255 - 19), 2 ** 255 - 19),
    'root 3 mod 4': lambda v: ECCurve.sqrtCQ(v * v % 8191, 8191),
    'no root': lambda v: ECCurve.sqrtCQ(3, 17),
    'inverse': lambda v: ECCurve.modinv(v | 1, 2 ** 61 - 1),
    'small': lambda v: ECCurve.next_random_integer(v % 9),
    'bytes': lambda v: list(ECCurve.randbytes(v % 9)),
    'point': lambda v: EllipticCurve(FiniteField(10007 + 6 * (v % 2)), 1, 1).decode_from_hex('02%04x' % (v % 5000)),
}


@facet('C28', lambda: st.tuples(st.lists(st.tuples(st.sampled_from(sorted(NUMBER_CALLS)), gen.integers(0, 9)), min_size=1, max_size=8), gen.integers(2, 4), st.sampled_from([64, 128, 255, 256])), 600, 'a call repeated between two draws', shards=2)
def fresh_integers(c, case):
    """the integers are drawn anew, whatever is computed between the draws, even if the same is computed again"""
    calls, rounds, n = case
    draws = []
    for _ in range(rounds):
        for name, v in calls:
            try:
                NUMBER_CALLS[name](v)
            except Exception:
                pass
            draws.append(ECCurve.next_random_integer(n))
    c.eq(len(set(draws)), len(draws), 'different random integers of %d bits' % n)
    c.nontrivial()
