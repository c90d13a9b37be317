"""Reference models, written from the standards and independent of neocore and of the packages it uses."""
import hashlib
import unicodedata

from Crypto.Hash import RIPEMD160

# ---------------------------------------------------------------- hashes


def sha256(b):
    return hashlib.sha256(bytes(b)).digest()


def hash256(b):
    return sha256(sha256(b))


def hash160(b):
    return RIPEMD160.new(sha256(b)).digest()


# ---------------------------------------------------------------- base58

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B58I = {c: i for i, c in enumerate(B58)}


def b58encode(data):
    data = bytes(data)
    zeros = len(data) - len(data.lstrip(b'\0'))
    n = int.from_bytes(data, 'big')
    out = ''
    while n:
        n, r = divmod(n, 58)
        out = B58[r] + out
    return '1' * zeros + out


def b58decode(text):
    """bytes, or None for a character outside the alphabet"""
    n = 0
    for c in text:
        if c not in B58I:
            return None
        n = n * 58 + B58I[c]
    zeros = len(text) - len(text.lstrip('1'))
    return b'\0' * zeros + (n.to_bytes((n.bit_length() + 7) // 8, 'big'))


def b58check(payload):
    return b58encode(bytes(payload) + hash256(payload)[:4])


def b58check_decode(text):
    raw = b58decode(text)
    if raw is None or len(raw) < 4 or hash256(raw[:-4])[:4] != raw[-4:]:
        return None
    return raw[:-4]


# ---------------------------------------------------------------- wire format


def varint(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


# ---------------------------------------------------------------- elliptic curves y^2 = x^3 + ax + b


class Curve:
    def __init__(self, p, a, b, gx, gy, n):
        self.p, self.a, self.b, self.n = p, a % p, b % p, n
        self.G = (gx, gy)

    def on_curve(self, P):
        if P is None:
            return True
        x, y = P
        return (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def add(self, P, Q):
        p = self.p
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            lam = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            lam = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (lam * lam - P[0] - Q[0]) % p
        return x, (lam * (P[0] - x) - P[1]) % p

    def mul(self, k, P):
        """left-to-right double and add in Jacobian coordinates; k any integer"""
        if P is None or k == 0:
            return None
        if k < 0:
            k, P = -k, self.neg(P)
        p, a = self.p, self.a
        X, Y, Z = P[0], P[1], 1
        x2, y2 = P
        R = None
        for bit in bin(k)[2:]:
            if R is not None:
                X, Y, Z = R
                if Y == 0:
                    R = None
                else:
                    S = 4 * X * Y * Y % p
                    M = (3 * X * X + a * pow(Z, 4, p)) % p
                    X3 = (M * M - 2 * S) % p
                    Y3 = (M * (S - X3) - 8 * pow(Y, 4, p)) % p
                    R = (X3, Y3, 2 * Y * Z % p)
            if bit == '1':
                if R is None:
                    R = (x2, y2, 1)
                else:
                    X, Y, Z = R
                    Z2 = Z * Z % p
                    U2 = x2 * Z2 % p
                    S2 = y2 * Z2 * Z % p
                    if U2 == X:
                        if S2 != Y:
                            R = None
                        else:
                            aff = self._affine(R)
                            d = self.add(aff, aff)
                            R = None if d is None else (d[0], d[1], 1)
                    else:
                        H = (U2 - X) % p
                        r = (S2 - Y) % p
                        H2 = H * H % p
                        H3 = H2 * H % p
                        V = X * H2 % p
                        X3 = (r * r - H3 - 2 * V) % p
                        Y3 = (r * (V - X3) - Y * H3) % p
                        R = (X3, Y3, Z * H % p)
        return self._affine(R)

    def _affine(self, R):
        if R is None:
            return None
        X, Y, Z = R
        zi = pow(Z, -1, self.p)
        return X * zi * zi % self.p, Y * zi * zi * zi % self.p

    def lift(self, x, parity):
        """the point with this x and y parity (p % 4 == 3), or None"""
        if not 0 <= x < self.p:
            return None
        c = (x * x * x + self.a * x + self.b) % self.p
        y = pow(c, (self.p + 1) // 4, self.p)
        if y * y % self.p != c:
            return None
        if y % 2 != parity:
            if y == 0:
                return None
            y = self.p - y
        return x, y


P256 = Curve(2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, -3,
             0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
             0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
             0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5,
             0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551)
K256 = Curve(2 ** 256 - 2 ** 32 - 977, 0, 7,
             0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
             0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8,
             0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141)

_pub_cache = {}


def pub(d):
    """public point of a private key on P-256"""
    if d not in _pub_cache:
        if len(_pub_cache) > 20000:
            _pub_cache.clear()
        _pub_cache[d] = P256.mul(d, P256.G)
    return _pub_cache[d]


def sec1(P, compressed=True):
    if P is None:
        return b'\0'
    x, y = P[0].to_bytes(32, 'big'), P[1].to_bytes(32, 'big')
    return bytes([2 + P[1] % 2]) + x if compressed else b'\x04' + x + y


def sec1_decode(b):
    """point for a valid SEC1 encoding on P-256, the string 'inf' for infinity, None if invalid"""
    b = bytes(b)
    if b == b'\0':
        return 'inf'
    if len(b) == 33 and b[0] in (2, 3):
        return P256.lift(int.from_bytes(b[1:], 'big'), b[0] & 1)
    if len(b) == 65 and b[0] == 4:
        P = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if P[0] < P256.p and P[1] < P256.p and P256.on_curve(P):
            return P
    return None


def ecdsa_verify(P, digest, r, s, curve=P256):
    n = curve.n
    if P is None or not (1 <= r < n and 1 <= s < n):
        return False
    z = int.from_bytes(digest, 'big')
    w = pow(s, -1, n)
    R = curve.add(curve.mul(z * w % n, curve.G), curve.mul(r * w % n, P))
    return R is not None and R[0] % n == r


def ecdsa_sign(d, digest, k, curve=P256):
    z = int.from_bytes(digest, 'big')
    R = curve.mul(k, curve.G)
    r = R[0] % curve.n
    s = pow(k, -1, curve.n) * (z + r * d) % curve.n
    return r, s


# ---------------------------------------------------------------- NEO keys


def contract_script(P):
    return b'\x21' + sec1(P) + b'\xac'


def address_of_hash(script_hash, version=23):
    return b58check(bytes([version]) + bytes(script_hash))


def address_of_key(d):
    return address_of_hash(hash160(contract_script(pub(d))))


def wif(key):
    return b58check(b'\x80' + bytes(key) + b'\x01')


def wif_decode(text):
    """32 key bytes, or None when the text is not the WIF of a compressed key"""
    if len(text) != 52:
        return None
    raw = b58check_decode(text)
    if raw is None or len(raw) != 34 or raw[0] != 0x80 or raw[33] != 1:
        return None
    return raw[1:33]


_scrypt_cache = {}


def scrypt64(password, salt, n=16384, r=8, p=8):
    key = (password, salt, n, r, p)
    if key not in _scrypt_cache:
        if len(_scrypt_cache) > 500:
            _scrypt_cache.clear()
        _scrypt_cache[key] = hashlib.scrypt(password, salt=salt, n=n, r=r, p=p, maxmem=256 << 20, dklen=64)
    return _scrypt_cache[key]


def _aes(key):
    from Crypto.Cipher import AES
    return AES.new(key, AES.MODE_ECB)


def nep2_encrypt(key, passphrase, kdf=scrypt64):
    salt = hash256(address_of_key(int.from_bytes(key, 'big')).encode())[:4]
    dk = kdf(unicodedata.normalize('NFC', passphrase).encode('utf-8'), salt)
    x = bytes(a ^ b for a, b in zip(key, dk[:32]))
    return b58check(b'\x01\x42\xe0' + salt + _aes(dk[32:]).encrypt(x))


def nep2_decrypt(text, passphrase, kdf=scrypt64):
    """32 key bytes or None (refused)"""
    raw = b58check_decode(text)
    if len(text) != 58 or raw is None or len(raw) != 39 or raw[:3] != b'\x01\x42\xe0':
        return None
    salt, enc = raw[3:7], raw[7:]
    dk = kdf(unicodedata.normalize('NFC', passphrase).encode('utf-8'), salt)
    key = bytes(a ^ b for a, b in zip(_aes(dk[32:]).decrypt(enc), dk[:32]))
    d = int.from_bytes(key, 'big')
    if not 1 <= d < P256.n:
        return None
    return key if hash256(address_of_key(d).encode())[:4] == salt else None


# ---------------------------------------------------------------- merkle trees


def merkle_levels(leaves):
    """levels from the leaves to the root"""
    levels = [list(leaves)]
    while len(levels[-1]) > 1:
        cur = levels[-1]
        levels.append([hash256(cur[i] + cur[min(i + 1, len(cur) - 1)]) for i in range(0, len(cur), 2)])
    return levels


def merkle_root(leaves):
    return merkle_levels(leaves)[-1][0]


def merkle_trim(leaves, flags):
    """The tree (hash, left, right) - left/right None for a node without children - left after trimming.

    Node j of level 1 keeps its two leaves iff flag 2j or 2j+1 is non-zero; a node above keeps its children iff at
    least one of them kept theirs.  A single leaf has nothing to trim.
    """
    levels = merkle_levels(leaves)

    def flag(i):
        return flags[i] if i < len(flags) else 0

    nodes = [(h, None, None) for h in levels[0]]
    for lev in range(1, len(levels)):
        nxt = []
        for j, h in enumerate(levels[lev]):
            left = nodes[2 * j]
            right = nodes[min(2 * j + 1, len(nodes) - 1)]
            if lev == 1:
                keep = flag(2 * j) or flag(2 * j + 1)
            else:
                keep = left[1] is not None or right[1] is not None
            nxt.append((h, left, right) if keep else (h, None, None))
        nodes = nxt
    return nodes[0]
