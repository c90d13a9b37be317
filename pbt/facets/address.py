"""C23 addresses, C24 hash and byte helpers."""
import binascii
import contextlib
import io
import re
import struct

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet

from neocore.bin import cli
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto, CryptoInstance
from neocore.IO import BinaryWriter as writer_module
from neocore.UInt160 import UInt160
from neocore.Utils import isValidPublicAddress


@contextlib.contextmanager
def version(v):
    """another configured address version"""
    saved = Helper.ADDRESS_VERSION
    Helper.ADDRESS_VERSION = v
    try:
        yield
    finally:
        Helper.ADDRESS_VERSION = saved


def quiet(fn, *args):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args)


def script_hashes():
    return gen.choose(*[gen.fixed(20)] * 7 + [st.sampled_from(gen.crafted('hashes'))])


# ---------------------------------------------------------------- C23


def to_address(c, h, kind):
    """the address of a script hash by every conversion function; they must agree"""
    conv = bytearray if kind % 2 else bytes
    arg = conv(h)
    out = {'Helper': Helper.scripthash_to_address(arg)}
    c.eq(bytes(arg), h, 'argument of scripthash_to_address')
    u = UInt160(data=conv(h))
    out['Crypto'] = Crypto.ToAddress(u)
    c.eq(bytes(u.ToArray()), h, 'argument of ToAddress')
    big = '0x' + h[::-1].hex()
    out['cli big endian'] = quiet(cli.scripthash_to_address, big)
    out['cli big endian upper'] = quiet(cli.scripthash_to_address, '0x' + big[2:].upper())
    out['cli little endian'] = quiet(cli.scripthash_to_address, h.hex() if kind < 2 else h.hex().upper())
    return out


@facet('C23', lambda: st.tuples(script_hashes(), st.one_of(st.just(23), st.just(23), gen.integers(0, 255)), gen.integers(0, 3)), 8000, 'script hash not constant', shards=8,
       corpus=lambda: [(bytes([i]) * 20, v, 0) for i in (0, 1, 255) for v in range(256)] + [(bytes(i) + bytes(range(1, 21 - i)), v, 1) for i in range(20) for v in (0, 1, 23, 255)] + [(h, 23, i % 4) for i, h in enumerate(gen.crafted('hashes'))])
def hash_to_address(c, case):
    h, v, kind = case
    exp = ref.address_of_hash(h, v)
    with version(v):
        for name, got in to_address(c, h, kind).items():
            c.eq(got, exp, 'address of %s by %s, version %d' % (h.hex(), name, v))
        back = cli.address_to_scripthash(exp)
        c.eq(bytes(back), h, 'script hash of %s' % exp)
    if v == 23:
        c.true(isValidPublicAddress(exp) is True, 'address %s is not valid' % exp)
    else:
        c.true(isValidPublicAddress(exp) is False, 'address %s of version %d is valid' % (exp, v))
        c.raises(lambda: cli.address_to_scripthash(exp), 'address %s of version %d' % (exp, v))
    c.nontrivial(len(set(h)) > 1)
    c.label('default version' if v == 23 else 'other version')


ADDR_EDITS = ['subst', 'swap', 'delete', 'insert', 'case', 'twice', 'version', 'length', 'lengthfront', 'checksum', 'checksum', 'checksum', 'payload', 'prefix1', 'garbage', 'cut', 'fixsum', 'newversion']
LETTERS = ref.B58 + '0OIl+/ _éА中1A'


@st.composite
def address_text(draw):
    h = draw(script_hashes())
    how = draw(st.sampled_from(ADDR_EDITS))
    i, j, v = draw(gen.integers(0, 40)), draw(gen.integers(0, 40)), draw(gen.integers(0, 255))
    ch = draw(st.sampled_from(LETTERS))
    good = ref.address_of_hash(h)
    t = list(good)
    n = len(t)
    raw = bytearray(b'\x17' + h)
    if how == 'subst':
        t[i % n] = ch
    elif how == 'swap':
        t[i % n], t[j % n] = t[j % n], t[i % n]
    elif how == 'delete':
        del t[i % n]
    elif how == 'insert':
        t.insert(i % (n + 1), ch)
    elif how == 'case':
        t[i % n] = t[i % n].swapcase()
    elif how == 'twice':
        t[i % n] = ch
        t[j % n] = draw(st.sampled_from(LETTERS))
    elif how == 'version':
        t = ref.address_of_hash(h, v)
    elif how == 'newversion':
        # another version with the checksum of the right one
        t = ref.b58encode(bytes([v]) + h + ref.hash256(raw)[:4])
    elif how == 'length':
        t = ref.b58check(raw[:i % 21] if v % 2 else bytes(raw) + bytes([v]) * (1 + i % 4))
    elif how == 'lengthfront':
        t = ref.b58check(raw[:1] + raw[1 + i % 20:] if v % 2 else raw[:1] + bytes([v % 3]) * (1 + i % 3) + raw[1:])
    elif how == 'checksum':
        t = ref.b58encode(gen.bad_checksum(raw, draw(st.sampled_from(gen.BAD_SUMS)), i, v))
    elif how == 'payload':
        full = bytearray(raw + ref.hash256(raw)[:4])
        full[i % 21] ^= v or 1
        t = ref.b58encode(full)
    elif how == 'fixsum':
        # checksum by a single SHA-256, or of the hash without the version
        t = ref.b58encode(bytes(raw) + (ref.sha256(raw) if v % 2 else ref.hash256(h))[:4])
    elif how == 'prefix1':
        t = ['1'] * (1 + i % 3) + t
    elif how == 'garbage':
        t = draw(st.one_of(gen.texts(0, 40), st.text(ref.B58, max_size=40), st.text(ref.B58, min_size=33, max_size=33).map(lambda s: 'A' + s)))
    elif how == 'cut':
        t = t[:i % n]
    return how, ''.join(t)


def address_hash(text, v=23):
    """the script hash of a well-formed address, else None"""
    raw = ref.b58check_decode(text)
    if raw is None or len(raw) != 21 or raw[0] != v:
        return None
    return raw[1:]


@facet('C23', address_text, 25000, 'text that is no address', shards=8,
       corpus=lambda: [('version', ref.address_of_hash(bytes(range(20)), v)) for v in range(256)] + [('length', ref.b58check((b'\x17' + bytes(range(1, 60)))[:n])) for n in range(50)]
       + [('subst', ref.address_of_hash(bytes(range(20)))[:i] + ch + ref.address_of_hash(bytes(range(20)))[i + 1:]) for i in range(34) for ch in '1zAB0'] + [('garbage', 'A' * 34), ('garbage', '')])
def address_checked(c, case):
    how, text = case
    h = address_hash(text)
    valid = isValidPublicAddress(text)
    c.true(valid is True or valid is False, 'isValidPublicAddress returns %r' % (valid,))
    c.eq(valid, h is not None, 'validity of %r (%s)' % (text, how))
    if text != text.rstrip():
        return   # the base58 package ignores trailing blanks; about them nothing is claimed but of the validator, which looks at the length first
    if h is None:
        c.raises(lambda: cli.address_to_scripthash(text), 'conversion of %r (%s)' % (text, how))
        c.nontrivial()
    else:
        c.eq(bytes(cli.address_to_scripthash(text)), h, 'script hash of %s' % text)
        c.eq(Helper.scripthash_to_address(h), text, 'address of %s' % h.hex())
    c.label('%s %s' % (how, 'refused' if h is None else 'valid'))


def mangled_address():
    return st.tuples(script_hashes(), gen.mangles()).map(lambda t: (t[1][0], gen.mangle(ref.address_of_hash(t[0]), t[1])))


@facet('C23', mangled_address, 6000, 'text that is no address', shards=2)
def address_mangled(c, case):
    address_checked(c, case)


@facet('C23', lambda: st.tuples(script_hashes(), gen.integers(0, 255), gen.integers(0, 255)), 4000, 'another version than the configured one', shards=2)
def address_version(c, case):
    """with any configured version exactly the addresses of this version are converted"""
    h, conf, v = case
    text = ref.address_of_hash(h, v)
    with version(conf):
        if conf == v:
            c.eq(bytes(cli.address_to_scripthash(text)), h, 'script hash of %s' % text)
        else:
            c.raises(lambda: cli.address_to_scripthash(text), 'address %s of version %d under version %d' % (text, v, conf))
            c.nontrivial()


# ---------------------------------------------------------------- C24


def contents():
    return st.one_of(gen.blobs(0, 80), gen.big_blob((0, 1, 55, 56, 63, 64, 65, 119, 120, 127, 128, 129, 1000, 4096, 65536)).map(gen.expand))


@facet('C24', lambda: st.tuples(contents(), st.sampled_from([False, True, 'view'])), 12000, 'at least two bytes', shards=4, corpus=lambda: [(bytes([n & 255]) * n, bool(n % 2)) for n in range(200)] + [(m, bool(n % 2)) for n, m in enumerate(gen.crafted('messages'))])
def hashes(c, case):
    data, mutable = case
    h160, h256 = ref.hash160(data), ref.hash256(data)
    inst = (Crypto.Default(), CryptoInstance())

    def fresh():
        return memoryview(data) if mutable == 'view' else bytearray(data) if mutable else data
    checks = [('bin_dbl_sha256', Helper.bin_dbl_sha256, h256), ('double_sha256', Helper.double_sha256, h256.hex()), ('bin_hash160Bytes', Helper.bin_hash160Bytes, h160), ('bin_hash160', Helper.bin_hash160, h160.hex()),
              ('Crypto.Hash160', Crypto.Hash160, h160.hex()), ('Crypto.Hash160Bytes', Crypto.Hash160Bytes, h160), ('Crypto.Hash256', Crypto.Hash256, h256),
              ('Default().Hash160', inst[0].Hash160, h160), ('Default().Hash256', inst[0].Hash256, h256), ('CryptoInstance().Hash160', inst[1].Hash160, h160), ('CryptoInstance().Hash256', inst[1].Hash256, h256),
              ('redeem_to_scripthash', Helper.redeem_to_scripthash, h160), ('Crypto module', Crypto.Hash256, h256)]
    for name, fn, exp in checks:
        arg = fresh()
        got = fn(arg)
        c.eq(got, exp, '%s of %d bytes' % (name, len(data)))
        c.true(isinstance(got, type(exp)) or isinstance(got, bytearray) and isinstance(exp, bytes), '%s returns %s' % (name, type(got).__name__))
        c.eq(bytes(arg), data, 'argument of %s' % name)
        c.eq(fn(arg), exp, '%s again' % name)
    arg = fresh()
    got = Crypto.ToScriptHash(arg, unhex=False)
    c.true(isinstance(got, UInt160), 'ToScriptHash returns %r' % type(got))
    c.eq(bytes(got.ToArray()), h160, 'ToScriptHash(unhex=False)')
    c.eq(bytes(arg), data, 'argument of ToScriptHash')
    if data:
        for hexed in (data.hex().encode(), data.hex().upper().encode()):
            arg = bytearray(hexed) if mutable else hexed
            c.eq(bytes(Crypto.ToScriptHash(arg).ToArray()), h160, 'ToScriptHash(%r)' % hexed[:80])
            c.eq(bytes(Crypto.ToScriptHash(arg, unhex=True).ToArray()), h160, 'ToScriptHash(unhex=True)')
            c.eq(bytes(arg), hexed, 'argument of ToScriptHash')
    c.nontrivial(len(data) >= 2)


@facet('C24', lambda: st.tuples(gen.large_blob(), st.sampled_from([False, True, 'view'])), 40, 'every case', shards=4, fuzz=False, seq=0)
def large_data(c, case):
    """the same functions on data of up to some megabytes"""
    t, mutable = case
    data = gen.expand(t)
    arg = memoryview(data) if mutable == 'view' else bytearray(data) if mutable else data
    h160, h256 = ref.hash160(data), ref.hash256(data)
    for fn, exp in ((Helper.bin_dbl_sha256, h256), (Helper.double_sha256, h256.hex()), (Helper.bin_hash160Bytes, h160), (Helper.bin_hash160, h160.hex()), (Crypto.Hash160, h160.hex()), (Crypto.Hash160Bytes, h160),
                    (Crypto.Hash256, h256), (Crypto.Default().Hash160, h160), (Crypto.Default().Hash256, h256), (Helper.redeem_to_scripthash, h160)):
        c.eq(fn(arg), exp, '%s of %d bytes' % (fn.__name__, len(data)))
    c.eq(bytes(Crypto.ToScriptHash(arg, unhex=False).ToArray()), h160, 'ToScriptHash(unhex=False) of %d bytes' % len(data))
    c.eq(bytes(Crypto.ToScriptHash(data.hex().encode()).ToArray()), h160, 'ToScriptHash of %d bytes' % len(data))
    c.true(arg == data, 'the argument was modified')
    if len(data) < 300000:
        other = bytes(reversed(data))
        c.true(Helper.xor_bytes(data, other) == (int.from_bytes(data, 'big') ^ int.from_bytes(other, 'big')).to_bytes(len(data), 'big'), 'xor of %d bytes' % len(data))
        c.raises(lambda: Helper.xor_bytes(data, other[1:]), 'xor of %d and %d bytes' % (len(data), len(data) - 1))
    c.nontrivial()


@facet('C24', lambda: st.tuples(gen.keys(), st.booleans()), 4000, 'key above 64 bits', shards=4, corpus=lambda: [(k, False) for k in gen.special_keys()])
def key_scripts(c, case):
    """public key to script, script hash and address"""
    k, upper = case
    P = ref.pub(k)
    text = ref.sec1(P).hex()
    arg = (text.upper() if upper else text).encode()
    script = ref.contract_script(P)
    redeem = Helper.pubkey_to_redeem(arg)
    c.eq(redeem, script, 'pubkey_to_redeem(%r)' % arg)
    c.eq(Helper.redeem_to_scripthash(redeem), ref.hash160(script), 'redeem_to_scripthash')
    c.eq(Helper.pubkey_to_pubhash(arg), ref.hash160(script), 'pubkey_to_pubhash(%r)' % arg)
    c.eq(Helper.scripthash_to_address(Helper.pubkey_to_pubhash(arg)), ref.address_of_key(k), 'address')
    c.eq(Crypto.ToAddress(Crypto.ToScriptHash(script, unhex=False)), ref.address_of_key(k), 'ToAddress(ToScriptHash(script))')
    c.nontrivial(k > 2 ** 64)


@facet('C24', lambda: st.tuples(gen.blobs(0, 70), gen.blobs(0, 70), st.booleans()), 8000, 'equally long, not empty', shards=2)
def xor(c, case):
    a, b, cut = case
    if cut:
        n = min(len(a), len(b))
        a, b = a[:n], b[:n]
    if len(a) == len(b):
        got = Helper.xor_bytes(a, b)
        c.eq(got, bytes(x ^ y for x, y in zip(a, b)), '%s xor %s' % (a.hex(), b.hex()))
        c.true(type(got) is bytes, 'xor_bytes returns %s' % type(got).__name__)
        c.eq(Helper.xor_bytes(got, b), a, 'xor twice')
        c.nontrivial(len(a) > 0)
        c.label('equal length')
    else:
        c.raises(lambda: Helper.xor_bytes(a, b), 'xor of %d and %d bytes' % (len(a), len(b)))
        c.label('refused')


@facet('C24', lambda: st.tuples(st.one_of(gen.ints(-2 ** 70, 2 ** 520), gen.ints(-2 ** 70, 2 ** 520), gen.ints(0, 2 ** 14000)), st.one_of(gen.integers(0, 80), gen.integers(-3, 8), gen.ints(0, 5000))), 10000, 'number beyond one byte', shards=2, corpus=lambda: [(v, w) for v in (0, 1, 255, 256, 65535, 65536) for w in range(6)])
def base256(c, case):
    n, width = case
    if n < 0:
        e = c.raises(lambda: Helper.base256_encode(n, width), 'base256_encode(%#x)' % n)
        c.true(isinstance(e, ValueError), 'base256_encode(%d): %r' % (n, e))
        return
    exp = n.to_bytes(max(1, (n.bit_length() + 7) // 8, width), 'little')
    for got in (Helper.base256_encode(n, width), Helper.base256_encode(n, minwidth=width)) + ((Helper.base256_encode(n),) if width <= 0 else ()):
        c.eq(bytes(got), exp, 'base256_encode(%#x, %d)' % (n, width))
    c.eq(int.from_bytes(Helper.base256_encode(n), 'little'), n, 'base256_encode(%#x) read back' % n)
    c.nontrivial(n > 255)


@facet('C24', lambda: gen.ints(0, 2 ** 32 - 1), 6000, 'more than one byte set', shards=1)
def swap(c, case):
    got = writer_module.swap32(case)
    c.eq(got, int.from_bytes(case.to_bytes(4, 'big'), 'little'), 'swap32(%#x)' % case)
    c.eq(writer_module.swap32(got), case, 'swapped twice')
    c.nontrivial(case > 255)


@facet('C24', lambda: st.one_of(gen.ints(0, 2 ** 20 - 1), gen.ints(0, 2 ** 32 - 1)), 4000, 'number with a leading zero digit', shards=1)
def binary_text(c, case):
    """fixed-width binary text of numbers that fit"""
    for fn, n in ((writer_module.convert_to_uint160, 20), (writer_module.convert_to_uint256, 32)):
        if case < 1 << n:
            got = fn(case)
            c.eq(got, format(case, '0%db' % n), '%s(%d)' % (fn.__name__, case))
    c.nontrivial(0 < case < 2 ** 31)


@facet('C24', lambda: gen.integers(2, 40), 60, 'every case', shards=1, fuzz=False)
def random_keys(c, case):
    """random keys are 32 bytes in hexadecimal and do not repeat, also under the same random seed"""
    import random
    seen = set()
    for i in range(case):
        if i % 3 == 0:
            random.seed(7)
        k = Helper.random_key()
        c.true(re.fullmatch(b'[0-9a-f]{64}', bytes(k)) is not None, 'random key %r' % k)
        seen.add(bytes(k))
    c.eq(len(seen), case, 'number of different random keys')
    bits = [0] * 256
    for k in seen:
        v = int(k, 16)
        for b in range(256):
            bits[b] += v >> b & 1
    if case >= 30:
        # a byte that never changes over 30 keys has probability 256 ** -29
        raw = [bytes.fromhex(k.decode()) for k in seen]
        c.true(all(len({r[i] for r in raw}) > 1 for i in range(32)), 'a byte of the random keys never changes')
    c.nontrivial()
