"""Histories of 160/256-bit value objects: C04 the bytes of every object, C09 equality, hash and order."""
import io

from hypothesis import strategies as st

from pbt import findings, gen
from pbt.core import facet

from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

CLS = {20: UInt160, 32: UInt256}
MAKE = ['construct', 'buffer', 'read', 'default', 'parse', 'parse0x', 'array', 'copy']
DO = MAKE + ['into', 'into', 'into zero', 'failed', 'write', 'use']


def pool(size=None):
    """a few values, the zero value among them most of the time, some equal in their first or last four bytes"""
    def build(t):
        vals, zero, keep, at = t
        if zero:
            vals = [bytes(len(vals[0]))] + vals
        if keep and len(vals) > 1:
            a, b = vals[-2], vals[-1]
            vals = vals + [a[:4] + b[4:], b[:-4] + a[-4:]]
        if at >= 0:
            # one that differs in a single byte
            a = vals[-1]
            at %= len(a)
            vals = vals + [a[:at] + bytes([a[at] ^ 1]) + a[at + 1:]]
        return vals
    return st.sampled_from([size] if size else [20, 32]).flatmap(lambda n: st.tuples(st.lists(gen.fixed(n), min_size=1, max_size=3), st.sampled_from([True, True, False]), st.booleans(), gen.integers(-32, 31))).map(build)


def histories(size=None):
    step = st.tuples(st.sampled_from(DO), gen.integers(0, 7), gen.integers(0, 9))
    return st.tuples(pool(size), st.lists(step, min_size=3, max_size=16))


def play(c, case, check):
    """runs the history; check(objects, expected values) after every step"""
    vals, steps = case
    n = len(vals[0])
    cls = CLS[n]
    made = []                                             # [object, its bytes]
    changed = 0
    source = io.BytesIO(b''.join(vals))
    reader = BinaryReader(source)
    for do, i, j in steps:
        v = vals[i % len(vals)]
        source.seek(n * (i % len(vals)))
        if do not in MAKE and not made:
            do = 'construct'
        target = made[j % len(made)] if made else None
        if do == 'construct':
            made.append([cls(data=v), v])
        elif do == 'buffer':
            buf = bytearray(v)
            made.append([cls(data=buf), v])
            buf[:] = b'\x77' * n
        elif do == 'read':
            made.append([getattr(reader, 'ReadUInt%d' % (8 * n))(), v])
        elif do == 'default':
            made.append([cls(), bytes(n)])
        elif do in ('parse', 'parse0x'):
            made.append([cls.ParseString(('0x' if do == 'parse0x' else '') + v[::-1].hex()), v])
        elif do == 'array':
            s = io.BytesIO(b'\2' + v + v)
            got = BinaryReader(s).ReadSerializableArray('neocore.%s.%s' % (cls.__name__, cls.__name__))
            made.extend([x, v] for x in got)
        elif do == 'copy':
            made.append([cls(data=bytearray(made[j % len(made)][0].ToArray())), made[j % len(made)][1]] if made else [cls(data=v), v])
        elif do == 'into':
            target[0].Deserialize(reader)
            changed += target[1] != v
            target[1] = v
        elif do == 'into zero':
            target[0].Deserialize(BinaryReader(io.BytesIO(bytes(n))))
            target[1] = bytes(n)
        elif do == 'failed':
            c.raises(lambda: target[0].Deserialize(BinaryReader(io.BytesIO(v[:j]))), 'deserializing %d bytes' % j)
        elif do == 'write':
            s = io.BytesIO()
            getattr(BinaryWriter(s), 'WriteUInt%d' % (8 * n))(target[0])
            if not findings.hex_looking(target[1]):
                c.eq(s.getvalue(), target[1], 'written value')
        else:
            hash(target[0]), str(target[0]), target[0] == cls(data=v), {target[0]: 1}.get(made[0][0])
        check(made)
    c.label('%d objects' % min(len(made), 9))
    c.nontrivial(len(made) > 1 and changed > 0)


@facet('C04', histories, 2500, 'a value is read into an earlier object while others exist')
def value_history(c, case):
    """every object keeps the bytes it got last, whatever is read, made or written afterwards"""
    def check(made):
        for obj, v in made:
            c.eq(bytes(obj.ToArray()), v, 'bytes of a value')
            c.eq(obj.ToString(), v[::-1].hex(), 'text of a value')
            c.eq(obj.Size, len(v), 'size of a value')
    play(c, case, check)


@facet('C09', histories, 2500, 'a value is read into an earlier object while others exist')
def order_history(c, case):
    """equality, hash and order follow the bytes which the objects have now"""
    def check(made):
        last = made[-1]
        for obj, v in made:
            for other, w in (made[0], last):
                c.true((obj == other) is (v == w) and (obj != other) is (v != w), '%s == %s' % (v.hex(), w.hex()))
                if v == w:
                    c.eq(hash(obj), hash(other), 'hash of equal values %s' % v.hex())
                m, k = int.from_bytes(v, 'little'), int.from_bytes(w, 'little')
                c.eq((obj < other, obj <= other, obj > other, obj >= other, obj.CompareTo(other)), (m < k, m <= k, m > k, m >= k, (m > k) - (m < k)), 'order of %s and %s' % (v.hex(), w.hex()))
            fresh = CLS[len(v)](data=v)
            c.eq(hash(obj), hash(fresh), 'hash of %s' % v.hex())
        c.eq(len({o for o, _ in made}), len({v for _, v in made}), 'number of distinct values')
    play(c, case, check)
