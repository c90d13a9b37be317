"""C20 key pairs, C21 WIF, C22 NEP-2."""
import hashlib
import sys
import unicodedata
import zlib

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet

import scrypt
from neocore.KeyPair import KeyPair

N = ref.P256.n


def b32(v):
    return v.to_bytes(32, 'big')


# ---------------------------------------------------------------- C20


def check_pair(c, kp, k, Q, key, what):
    c.eq((kp.PublicKey.x.value, kp.PublicKey.y.value), Q, '%s: public key' % what)
    c.true(not kp.PublicKey.IsInfinity and kp.PublicKey.isoncurve(), '%s: public key is on the curve' % what)
    c.eq(bytes.fromhex(bytes(kp.PublicKey.encode_point(True)).decode()), ref.sec1(Q), '%s: encoded public key' % what)
    c.eq(bytes(kp.PublicKeyHash.ToArray()), ref.hash160(ref.sec1(Q)), '%s: public key hash' % what)
    c.eq(kp.GetAddress(), ref.address_of_hash(ref.hash160(ref.contract_script(Q))), '%s: address' % what)
    c.eq(bytes(kp.PrivateKey), key, '%s: private key' % what)
    c.eq(kp.Export(), ref.wif(key), '%s: export' % what)


@facet('C20', lambda: st.tuples(gen.keys(), gen.fixed(8), gen.integers(0, 2), st.booleans()), 10000, 'key above 64 bits', shards=8,
       corpus=lambda: [(k, b'\4' * 8, i % 3, bool(i % 2)) for i, k in enumerate(gen.special_keys() + list(range(1, 60)) + [N - i for i in range(1, 60)])])
def key_pair(c, case):
    k, skip, order, mutable = case
    key = b32(k)
    Q = ref.pub(k)
    unc = ref.sec1(Q, False)[1:]
    forms = [key, unc + key, skip + unc + key]
    forms = forms[order:] + forms[:order]
    conv = bytearray if mutable else bytes
    for form in forms:
        arg = conv(form)
        kp = KeyPair(arg)
        check_pair(c, kp, k, Q, key, 'key %x imported from %d bytes' % (k, len(form)))
        c.eq(bytes(arg), form, 'argument')
        if mutable:
            # the pair does not change when the caller reuses its buffer
            for i in range(len(arg)):
                arg[i] ^= 0x55
            c.eq((bytes(kp.PrivateKey), kp.GetAddress(), kp.Export()), (key, ref.address_of_key(k), ref.wif(key)), 'key pair after the buffer it was made from changed')
    kp = KeyPair(priv_key=key)
    check_pair(c, kp, k, Q, key, 'key %x' % k)
    c.nontrivial(k > 2 ** 64)
    if ref.sec1(Q)[1] == 0:
        c.label('x starts with a zero byte')
    if unc[32] == 0:
        c.label('y starts with a zero byte')


def bad_key():
    outside = st.one_of(st.just(0), gen.integers(N, 2 ** 256 - 1), gen.integers(0, 400).map(lambda d: N + d), gen.integers(0, 5).map(lambda d: 2 ** 256 - 1 - d))
    return st.one_of(st.tuples(st.just('value'), outside, st.just(0), st.booleans()),
                     st.tuples(st.just('length'), gen.keys(), st.one_of(gen.integers(0, 140), st.sampled_from([31, 33, 34, 64, 65, 95, 97, 103, 105, 128, 136])).filter(lambda n: n not in (32, 96, 104)), st.booleans()))


@facet('C20', bad_key, 6000, 'every case', shards=4, corpus=lambda: [('length', 77, n, False) for n in range(0, 300) if n not in (32, 96, 104)] + [('value', v, 0, False) for v in (0, N, N + 1, 2 ** 256 - 1)])
def refused_key(c, case):
    kind, v, n, mutable = case
    if kind == 'value':
        key = b32(v)
    else:
        full = ref.sec1(ref.pub(v), False) + b32(v) + b32(v) * 6
        key = (b32(v) if n < 32 else b32(v) + full)[:n]
    arg = bytearray(key) if mutable else key
    c.raises(lambda: KeyPair(arg), 'private key of %d bytes %s' % (len(key), key.hex()))
    c.nontrivial()
    c.label(kind)


# ---------------------------------------------------------------- C21

LETTERS = ref.B58 + '0OIl +/\n\0-_éA中'


def wif_key():
    return st.one_of(gen.keys(), gen.fixed(32).map(lambda b: int.from_bytes(b, 'big')).map(lambda v: v % (N - 1) + 1))


@facet('C21', lambda: wif_key(), 5000, 'key above 64 bits', shards=6, corpus=lambda: gen.special_keys() + [N - 1, N - 2, 2 ** 248, 2 ** 248 - 1])
def wif_round_trip(c, case):
    key = b32(case)
    kp = KeyPair(key)
    text = kp.Export()
    c.eq(text, ref.wif(key), 'WIF of %x' % case)
    c.true(type(text) is str and len(text) == 52, 'WIF is a text of 52 characters')
    c.eq(kp.Export(), text, 'exported again')
    back = KeyPair.PrivateKeyFromWIF(text)
    c.eq(bytes(back), key, 'key imported from %s' % text)
    c.true(isinstance(back, (bytes, bytearray)) and len(back) == 32, 'imported key is %r' % back)
    c.eq(bytes(KeyPair.PrivateKeyFromWIF(wif=text)), key, 'key imported from %s' % text)
    c.eq(KeyPair(back).GetAddress(), kp.GetAddress(), 'address of the imported key')
    c.eq(bytes(kp.PrivateKey), key, 'private key after exporting')
    c.nontrivial(case > 2 ** 64)


WIF_EDITS = ['subst', 'subst', 'swap', 'delete', 'insert', 'twice', 'version', 'flag', 'payload', 'checksum', 'checksum', 'checksum', 'short', 'random', 'case', 'pad', 'prefix1', 'uncompressed']


@st.composite
def wif_text(draw):
    key = b32(draw(wif_key()))
    how = draw(st.sampled_from(WIF_EDITS))
    i, j = draw(gen.integers(0, 60)), draw(gen.integers(0, 60))
    ch = draw(st.sampled_from(LETTERS))
    v = draw(gen.integers(0, 255))
    t = list(ref.wif(key))
    n = len(t)
    if how == 'subst':
        t[i % n] = ch
    elif how == 'swap':
        t[i % n], t[j % n] = t[j % n], t[i % n]
    elif how == 'delete':
        del t[i % n]
    elif how == 'insert':
        t.insert(i % (n + 1), ch)
    elif how == 'twice':
        t[i % n] = ch
        t[j % n] = draw(st.sampled_from(LETTERS))
    elif how == 'version':
        t = ref.b58check(bytes([v]) + key + b'\1')
    elif how == 'flag':
        t = ref.b58check(b'\x80' + key + bytes([v]))
    elif how == 'payload':
        p = bytearray(b'\x80' + key + b'\1')
        p[i % 34] ^= 1 << v % 8
        t = ref.b58encode(bytes(p) + ref.hash256(b'\x80' + key + b'\1')[:4])
    elif how == 'checksum':
        t = ref.b58encode(gen.bad_checksum(b'\x80' + key + b'\1', draw(st.sampled_from(gen.BAD_SUMS)), i, v))
    elif how == 'short':
        # any length of payload, right checksum
        p = (b'\x80' + key + b'\1' + key)[:i]
        t = ref.b58check(p)
    elif how == 'random':
        t = draw(st.lists(st.sampled_from(ref.B58), min_size=52, max_size=52))
        t[0] = draw(st.sampled_from('KL5' + ch))
    elif how == 'case':
        t[i % n] = t[i % n].swapcase()
    elif how == 'pad':
        # 52 characters, but not all of them belong to the alphabet
        t = t[:51] + [draw(st.sampled_from(' \n\t'))] if v % 2 else t + [' ']
    elif how == 'prefix1':
        t = ['1'] * (v % 4) + t[:n - v % 4]
    elif how == 'uncompressed':
        t = ref.b58check(b'\x80' + key) if v % 2 else ref.b58encode(b'\x80' + key + b'\1' + ref.sha256(b'\x80' + key + b'\1')[:4])
    return how, ''.join(t)


@facet('C21', wif_text, 12000, 'the text differs from every WIF', shards=4, corpus=lambda: [('version', ref.b58check(bytes([v]) + bytes(range(32)) + b'\1')) for v in range(256)] + [('flag', ref.b58check(b'\x80' + bytes(range(32)) + bytes([v]))) for v in range(256)] + [('short', ref.b58check((b'\x80' + bytes(range(1, 90)))[:n])) for n in range(80)])
def wif_corrupt(c, case):
    how, text = case
    exp = ref.wif_decode(text)
    if exp is None:
        c.raises(lambda: KeyPair.PrivateKeyFromWIF(text), 'import of %r (%s)' % (text, how))
        c.nontrivial()
    elif 1 <= int.from_bytes(exp, 'big') < N:
        c.eq(bytes(KeyPair.PrivateKeyFromWIF(text)), exp, 'import of %r' % text)
    c.label('%s %s' % (how, 'refused' if exp is None else 'valid'))


@facet('C21', lambda: st.tuples(wif_key(), gen.mangles()).map(lambda t: (t[1][0], gen.mangle(ref.wif(b32(t[0])), t[1]))), 4000, 'the text differs from every WIF', shards=2)
def wif_mangled(c, case):
    wif_corrupt(c, case)


# ---------------------------------------------------------------- C22


class Standin:
    """Replaces the slow key derivation by a cheap one that depends on all its parameters; counts its calls."""

    def __init__(self):
        self.calls = 0

    def derive(self, password, salt, N, r, p, n):
        self.calls += 1
        password = password.encode() if isinstance(password, str) else bytes(password)
        seed = repr((password, bytes(salt), N, r, p, n)).encode()
        return b''.join(hashlib.sha512(bytes([i]) + seed).digest() for i in range(n // 64 + 1))[:n]

    def scrypt_hash(self, password, salt, N=1 << 14, r=8, p=1, buflen=64):
        return self.derive(password, salt, N, r, p, buflen)

    def hashlib_scrypt(self, password, *, salt, n, r, p, maxmem=0, dklen=64):
        return self.derive(password, salt, n, r, p, dklen)

    def kdf(self, password, salt):
        return self.derive(password, salt, 16384, 8, 8, 64)

    def __enter__(self):
        swap = {id(scrypt.hash): self.scrypt_hash, id(hashlib.scrypt): self.hashlib_scrypt}
        self.saved = []
        # also where a module of the library holds the function under a name of its own
        for module in [scrypt, hashlib] + [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'neocore' and m is not None]:
            for name, value in list(vars(module).items()):
                if id(value) in swap:
                    self.saved.append((module, name, value))
        for module, name, value in self.saved:
            setattr(module, name, swap[id(value)])
        return self

    def __exit__(self, *exc):
        for module, name, value in self.saved:
            setattr(module, name, value)

    _works = None

    @classmethod
    def works(cls):
        """whether the library's key derivation is intercepted in both directions (if not, the checks use the real one, for fewer cases)"""
        if cls._works is None:
            key, counts = bytes(range(1, 33)), []
            with cls() as s:
                for f in (lambda: KeyPair(key).ExportNEP2('probe'), lambda text=ref.nep2_encrypt(key, 'probe', s.kdf): KeyPair.PrivateKeyFromNEP2(text, 'probe')):
                    s.calls = 0
                    try:
                        f()
                    except Exception:
                        pass
                    counts.append(s.calls)
            # nothing of what the library may remember from the probe belongs to the stand-in for other passphrases or keys
            cls._works = all(counts)
        return cls._works

    @classmethod
    def chosen(cls, case):
        """the cases for which the real key derivation is used when there is no stand-in"""
        return zlib.crc32(repr(case).encode('utf-8', 'backslashreplace')) % 60 == 0


class Real:
    """the key derivation of the standard, in place of a stand-in which the library does not use"""
    calls = 1
    kdf = staticmethod(ref.scrypt64)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


def derivation(case):
    """the key derivation for this case (None: the case is left out, as it would take too long)"""
    return Standin() if Standin.works() else Real() if Standin.chosen(case) else None


UNI = 'aeo\u0301\u0308\u030a\u0327\u00e9\u00f6\u00c5\u212b\u1e9b\u0323\ufb01\uff21\u2460 \u00a0\u200b\u4e2d\U0001f600Zß\u1100\u1161\uac00\u0344'


def passphrases(lo=2, hi=24):
    return st.one_of(st.text(UNI, min_size=lo, max_size=hi), gen.texts(lo, hi), st.text('abcXYZ019 ', min_size=lo, max_size=hi),
                     st.text('ab', min_size=60, max_size=75), st.sampled_from(['TestingOneTwoThree', 'Satoshi', '\u03d2\u0301\0\U00010400\U0001f4a9', '  ', '\0\0', 'aa']))


PASS_EDITS = ['same', 'nfd', 'nfc', 'nfkc', 'nfkd', 'other', 'lower', 'upper', 'strip', 'space', 'front', 'cut', 'subst', 'swap', 'null', 'empty', 'latin']


@st.composite
def passphrase_pair(draw, edits=PASS_EDITS):
    p = draw(passphrases())
    how = draw(st.sampled_from(edits))
    i = draw(gen.integers(0, 80))
    ch = draw(st.sampled_from(UNI))
    q = {'same': lambda: p, 'nfd': lambda: unicodedata.normalize('NFD', p), 'nfc': lambda: unicodedata.normalize('NFC', p), 'nfkc': lambda: unicodedata.normalize('NFKC', p), 'nfkd': lambda: unicodedata.normalize('NFKD', p),
         'other': lambda: draw(passphrases()), 'lower': p.lower, 'upper': p.upper, 'strip': p.strip, 'space': lambda: p + ' ', 'front': lambda: ' ' + p, 'cut': lambda: p[:i % len(p)],
         'subst': lambda: p[:i % len(p)] + ch + p[i % len(p) + 1:], 'swap': lambda: p[1:] + p[:1], 'null': lambda: p + '\0', 'empty': lambda: '', 'latin': lambda: p.encode('utf-8').decode('latin-1')}[how]()
    return p, how, q


NEP2_EDITS = ['none', 'none', 'subst', 'swap', 'delete', 'insert', 'header', 'salt', 'cipher', 'length', 'lengthfront', 'checksum', 'checksum', 'case', 'random']


@st.composite
def nep2_edit(draw):
    return (draw(st.sampled_from(NEP2_EDITS)), draw(gen.integers(0, 70)), draw(gen.integers(0, 70)), draw(gen.integers(1, 255)), draw(st.sampled_from(LETTERS)))


def edited(text, edit):
    how, i, j, v, ch = edit
    t = list(text)
    n = len(t)
    raw = bytearray(ref.b58decode(text)[:-4])
    if how == 'subst':
        t[i % n] = ch
    elif how == 'swap':
        t[i % n], t[j % n] = t[j % n], t[i % n]
    elif how == 'delete':
        del t[i % n]
    elif how == 'insert':
        t.insert(i % (n + 1), ch)
    elif how == 'case':
        t[i % n] = t[i % n].swapcase()
    elif how == 'random':
        t[2:] = [ref.B58[(v * (q + 1) * 7 + i * q * q) % 58] for q in range(n - 2)]
    elif how == 'checksum':
        t = ref.b58encode(gen.bad_checksum(raw, gen.BAD_SUMS[j % len(gen.BAD_SUMS)], i, v))
    elif how != 'none':
        if how == 'header':
            raw[i % 3] ^= v
        elif how == 'salt':
            raw[3 + i % 4] ^= v
        elif how == 'cipher':
            raw[7 + i % 32] ^= v
        elif how == 'length':
            raw = raw[:i % 39] if v % 2 else raw + bytes([v]) * (1 + i % 3)
        elif how == 'lengthfront':
            raw = raw[:7] + raw[7 + 1 + i % 20:] if v % 2 else raw[:7] + bytes([v]) + raw[7:]
        t = ref.b58check(raw)
    return ''.join(t)


def nep2_body(c, case, kdf):
    k, (pp, how, qq), edit = case
    key = b32(k)
    kp = KeyPair(key)
    text = kp.ExportNEP2(pp)
    exp = ref.nep2_encrypt(key, pp, kdf)
    c.eq(text, exp, 'NEP-2 text of key %x with passphrase %r' % (k, pp))
    c.true(type(text) is str and len(text) == 58, 'NEP-2 text has 58 characters')
    c.eq(bytes(kp.PrivateKey), key, 'private key after exporting')
    bad = edited(text, edit)
    exp = ref.nep2_decrypt(bad, qq, kdf)
    what = 'NEP-2 text %r (%s) with passphrase %r (%s of %r)' % (bad, edit[0], qq, how, pp)
    if exp is None:
        c.raises(lambda: KeyPair.PrivateKeyFromNEP2(bad, qq), what)
        c.nontrivial()
    else:
        c.eq(bytes(KeyPair.PrivateKeyFromNEP2(bad, qq)), exp, what)
        c.nontrivial(qq != pp)
    c.eq(bytes(KeyPair.PrivateKeyFromNEP2(nep2_key=text, passphrase=pp)), key, 'NEP-2 text %r with passphrase %r' % (text, pp))
    c.label('%s %s' % ('passphrase ' + how if edit[0] == 'none' else edit[0], 'refused' if exp is None else 'accepted'))


def surrogates():
    """(passphrase with a lone surrogate, one that may be taken for it)"""
    def make(t):
        pp, i, s, how = t
        i %= len(pp) + 1
        odd = pp[:i] + s + pp[i:]
        look = {'?': '?', 'drop': '', 'mark': '\ufffd', 'escape': '\\u%04x' % ord(s), 'latin': s.encode('utf-8', 'surrogatepass').decode('latin-1'), 'xml': '&#%d;' % ord(s), 'byte': chr(ord(s) & 0xff)}[how]
        return odd, pp[:i] + look + pp[i:]
    return st.tuples(passphrases(), gen.integers(0, 90), st.sampled_from('\ud800\udbff\udc00\udfff\udc80\udcff\ude00'), st.sampled_from(['?', 'drop', 'mark', 'escape', 'latin', 'xml', 'byte'])).map(make)


@facet('C22', lambda: st.tuples(gen.keys(), surrogates()), 1500, 'every case', shards=2)
def nep2_surrogates(c, case):
    """a passphrase that is no text at all is not taken for another one"""
    k, (odd, other) = case
    try:
        unicodedata.normalize('NFC', odd).encode('utf-8')
        return
    except UnicodeEncodeError:
        pass
    d = derivation(case)
    if d is None:
        return
    with d as s:
        c.raises(lambda: KeyPair(b32(k)).ExportNEP2(odd), 'ExportNEP2 with passphrase %a' % odd)
        if len(other) > 1:
            text = ref.nep2_encrypt(b32(k), other, s.kdf)
            c.raises(lambda: KeyPair.PrivateKeyFromNEP2(text, odd), 'NEP-2 text for passphrase %a with passphrase %a' % (other, odd))
            c.eq(bytes(KeyPair.PrivateKeyFromNEP2(text, other)), b32(k), 'NEP-2 text for passphrase %a' % other)
    c.nontrivial()


def nep2_case():
    return st.tuples(gen.keys(), passphrase_pair(), nep2_edit())


@facet('C22', nep2_case, 6000, 'refused text or passphrase, or an equivalent but different passphrase', shards=8,
       corpus=lambda: [(k, ('caf\u00e9', 'nfd', 'cafe\u0301'), ('none', 0, 0, 1, 'a')) for k in gen.special_keys()])
def nep2_cheap_kdf(c, case):
    """everything around the key derivation, which is replaced by a cheap one"""
    d = derivation(case)
    if d is None:
        return
    with d as s:
        nep2_body(c, case, s.kdf)


@st.composite
def nep2_real_case(draw):
    k, p, e = draw(gen.keys()), draw(passphrase_pair(['same', 'nfd', 'nfkc', 'other', 'space', 'lower'])), draw(nep2_edit())
    return k, p, e if e[0] in ('salt', 'cipher', 'subst') else ('none',) + e[1:]


@facet('C22', nep2_real_case, 48, 'refused text or passphrase, or an equivalent but different passphrase', shards=8, thorough=15, fuzz=False,
       corpus=lambda: [(int('cbf4b9f70470856bb4f40f80b87edb90865997ffee6df315ab166d713af433a5', 16), ('TestingOneTwoThree', 'other', 'Satoshi'), ('none', 0, 0, 1, 'a')),
                       (int('09c2686880095b1a4c249ee3ac4eea8a014f11e6f986d0b5025ac1f39afbd9ae', 16), ('Satoshi', 'other', 'satoshi'), ('none', 0, 0, 1, 'a'))])
def nep2_real_kdf(c, case):
    """with the key derivation of the standard"""
    nep2_body(c, case, ref.scrypt64)


@facet('C22', lambda: st.tuples(gen.keys(), st.one_of(st.just(''), st.text(UNI + 'ab1 ', max_size=1), gen.texts(0, 1))), 1500, 'passphrase of one character')
def nep2_short(c, case):
    k, pp = case
    kp = KeyPair(b32(k))
    with Standin():
        e = c.raises(lambda: kp.ExportNEP2(pp), 'passphrase %r' % pp)
    c.true(isinstance(e, ValueError), 'passphrase %r: %r instead of ValueError' % (pp, e))
    c.nontrivial(len(pp) == 1)


@facet('C22', lambda: st.tuples(st.one_of(gen.texts(0, 80), st.text(ref.B58, max_size=80), st.text(ref.B58, min_size=58, max_size=58), gen.blobs(0, 60).map(ref.b58check), gen.fixed(39).map(ref.b58check), gen.fixed(36).map(lambda b: ref.b58check(b'\1\x42\xe0' + b))), passphrases()), 4000, '58 characters')
def nep2_garbage(c, case):
    text, pp = case
    d = derivation(case)
    if d is None:
        return
    with d as s:
        if text and text.strip() and ref.nep2_decrypt(text, pp, s.kdf) is None:
            c.raises(lambda: KeyPair.PrivateKeyFromNEP2(text, pp), 'NEP-2 text %r with passphrase %r' % (text, pp))
    c.nontrivial(len(text) == 58)


@facet('C22', lambda: st.tuples(gen.keys(), passphrases(), gen.mangles()), 2500, 'the text differs from every NEP-2 text', shards=4)
def nep2_mangled(c, case):
    """NEP-2 texts written in some other way"""
    k, pp, how = case
    d = derivation(case)
    if d is None:
        return
    with d as s:
        text = gen.mangle(ref.nep2_encrypt(b32(k), pp, s.kdf), how)
        exp = ref.nep2_decrypt(text, pp, s.kdf)
        what = 'NEP-2 text %r (%s) with passphrase %r' % (text, how[0], pp)
        if exp is None:
            c.raises(lambda: KeyPair.PrivateKeyFromNEP2(text, pp), what)
            c.nontrivial()
        else:
            c.eq(bytes(KeyPair.PrivateKeyFromNEP2(text, pp)), exp, what)
    c.label('%s %s' % (how[0], 'refused' if exp is None else 'accepted'))
