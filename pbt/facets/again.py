"""The same thing once more: lists and values changed in place between two calls, numbers made to fit, the first calls of a process."""
import os
import pickle
import select
import signal

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import CheckFailure, HarnessError, describe, facet, is_violation
from pbt.facets.crypto import KEY_FORMS, MSG_FORMS, b32, digest, key_forms, messages, verify
from pbt.facets.curve import K1, R1, forms, on, prime_groups
from pbt.facets.io_var import grow
from pbt.facets.processes import TABLE as CALLS, answers
from pbt.facets.reuse import EDITS, TAKING, edited, picture
from pbt.facets.threads import SAFE_CALLS, Turns, schedules, small
from pbt.facets.uints import CLS, histories, play

from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt256 import UInt256


# ---------------------------------------------------------------- C27 the same container with other contents

def put(arg, new):
    """the contents of new, in the same buffer or list"""
    arg[:] = new


def outcome(call, arg):
    try:
        return picture(call(arg))
    except Exception as e:
        return 'refused' if not is_violation(e) or not isinstance(e, CheckFailure) else str(e)


@facet('C27', lambda: st.tuples(st.sampled_from(sorted(TAKING)), st.lists(st.tuples(st.one_of(gen.integers(1, 5), gen.keys()), gen.integers(0, 300), gen.blobs(0, 30)), min_size=2, max_size=4), st.booleans(), gen.integers(0, 300)), 2000, 'two different contents of the same length', shards=8,
       corpus=lambda: [(n, [(7, 3, b'0123456789'), (2 ** 255 - 19, 3, b'9876543210')], bool(i), 3) for n in sorted(TAKING) for i in range(2)])
def changed_in_place(c, case):
    """an operation is called with a buffer or list, which is then filled with something else and given to it again"""
    name, parts, same_size, size = case
    make, call = TAKING[name]
    if same_size:
        # lists of the same length, byte strings too
        parts = [(k, size, (b * size)[:size % 40] if b else bytes(size % 40)) for k, f, b in parts]
    arg = make(*parts[0])
    seen = []
    for k, f, b in parts + parts[:1]:
        new = make(k, f, b)
        put(arg, new)
        got = outcome(call, arg)
        exp = outcome(call, make(k, f, b))
        c.eq(got, exp, '%s%r with a container that held something else before' % (name, (k, f, b)))
        c.eq(picture(arg), picture(make(k, f, b)), 'the argument of %s' % name)
        seen.append((len(new), repr(exp)))
    c.nontrivial(any(a[0] == b[0] and a[1] != b[1] for a, b in zip(seen, seen[1:])))
    c.label(name)


def read_into(obj, data):
    import io
    obj.Deserialize(BinaryReader(io.BytesIO(data)))


@facet('C14', lambda: st.tuples(st.lists(gen.fixed(32), min_size=1, max_size=5), gen.integers(1, 40), st.lists(st.tuples(st.sampled_from(EDITS + ['first', 'last', 'grow', 'cut', 'read into', 'read into', 'read near', 'read near', 'none']), gen.integers(0, 2000), gen.integers(0, 2000)), min_size=1, max_size=4)), 1200,
       'the list changed and kept its length', shards=4,
       corpus=lambda: [([bytes([7]) * 32, bytes(range(32))], n, [(how, i, 1)]) for n in (1, 2, 3, 4, 5, 8, 9) for how in EDITS + ['first', 'last', 'grow', 'cut', 'read into', 'read near'] for i in (0, 1)])
def same_list(c, case):
    """one list object, changed between the calls: its hashes exchanged, replaced, removed or added, or read into in place"""
    base, n, steps = case
    hs = grow((base, n))
    arg = [UInt256(data=bytearray(h)) for h in hs]
    kept = 0
    for how, i, j in [('none', 0, 0)] + steps:
        old = list(hs)
        if how == 'grow':
            hs = hs + [hs[i % len(hs)][::-1]]
        elif how == 'cut':
            hs = hs[:-1] or hs
        elif how in ('first', 'last'):
            at = 0 if how == 'first' else -1
            hs = list(hs)
            hs[at] = bytes(x ^ 0x55 for x in hs[at])
        elif how in ('read into', 'read near'):
            at = i % len(hs)
            hs = list(hs)
            hs[at] = bytes(x ^ (j % 255 + 1 if how == 'read into' or n == j % 32 else 0) for n, x in enumerate(hs[at]))
            read_into(arg[at], hs[at])
        elif how != 'none':
            hs = edited(hs, how, i, j)
        if not how.startswith('read'):
            arg[:] = [UInt256(data=bytearray(h)) for h in hs]
        root = ref.merkle_root(hs)
        c.eq(bytes(MerkleTree.ComputeRoot(arg).ToArray()), root, 'root of a list of %d hashes after %s' % (len(hs), how))
        t = MerkleTree(arg)
        c.eq(bytes(t.Root.Hash.ToArray()), root, 'root of the tree of a list of %d hashes after %s' % (len(hs), how))
        c.eq(set(bytes(x.ToArray()) for x in t.ToHashArray()), set(hs), 'hashes of the tree after %s' % how)
        kept += hs != old and len(hs) == len(old)
        c.label(how)
    c.nontrivial(kept > 0)


# ---------------------------------------------------------------- C08

@facet('C08', histories, 1500, 'a value is read into an earlier object while others exist')
def parsed_again(c, case):
    """texts parsed again and again give the same values, whatever happened to the values parsed before"""
    def check(made):
        obj, v = made[-1]
        cls, text = CLS[len(v)], v[::-1].hex()
        for obj, w in made:
            c.eq(obj.ToString(), w[::-1].hex(), 'text of a value')
        for t in (text, '0x' + text, text.upper()):
            one = cls.ParseString(t)
            c.eq(bytes(one.ToArray()), v, 'value of the text %s' % t)
            # what the caller does with this value changes no other
            read_into(one, bytes(x ^ 0xa5 for x in v))
            c.eq(cls.ParseString(t).ToString(), text, 'the text %s parsed again' % t)
        c.eq(cls().ToString(), '00' * len(v), 'a value made without data')
        read_into(cls(), v)
        c.eq(cls().ToString(), '00' * len(v), 'a value made without data')
    play(c, case, check)


# ---------------------------------------------------------------- C23

@facet('C23', lambda: histories(20), 1500, 'a value is read into an earlier object while others exist', shards=2)
def address_again(c, case):
    """the address of a script hash is the address of its present value"""
    def check(made):
        for obj, v in made[-1:] + made:
            want = ref.address_of_hash(v)
            c.eq((Crypto.ToAddress(obj), Helper.scripthash_to_address(obj.ToArray()), Helper.scripthash_to_address(obj.Data)), (want,) * 3, 'address of a script hash')
    play(c, case, check)


# ---------------------------------------------------------------- C26, C19: numbers made to fit

def other_r(r, n, how, bit, d):
    return {'bit': r ^ 1 << bit % n.bit_length(), 'plus': r + (1 << bit % n.bit_length()), 'minus': r - (1 << bit % n.bit_length()), 'negated': -r, 'near': r + d, 'low half': r % 2 ** (n.bit_length() // 2),
            'times': r * d, 'high': r ^ ((1 << n.bit_length() // 2) - 1), 'one': 1, 'backwards': int.from_bytes(r.to_bytes((n.bit_length() + 7) // 8, 'big'), 'little'), 'complement': (1 << n.bit_length()) - 1 - r}[how] % n


R_KINDS = ['bit', 'bit', 'bit', 'plus', 'minus', 'negated', 'near', 'low half', 'times', 'high', 'one', 'backwards', 'complement']


@facet('C26', lambda: st.tuples(st.sampled_from(['r1', 'k1', 'small']), gen.integers(0, 10 ** 4), st.tuples(*[gen.ints(1, ref.P256.n - 1)] * 3), st.sampled_from(R_KINDS), gen.integers(0, 255), gen.integers(2, 9), st.sampled_from(['value', 'int', 'big'])), 400, 'the point is right and the first number is not', shards=8, thorough=15,
       corpus=lambda: [(name, 3, (7, 11, 5), 'bit', i, 2, 'value') for name in ('r1', 'k1') for i in range(0, 256, 5)])
def fitted_numbers(c, case):
    """the first number is altered and the second made to fit, so that the point of the verification is the right one: only the comparison with its coordinate refuses the signature"""
    name, i, (x, k, m), how, bit, d, kind = case
    ec, rc, G, n = prime_groups()[i % len(prime_groups())] if name == 'small' else (R1, ref.P256, ref.P256.G, ref.P256.n) if name == 'r1' else (K1, ref.K256, ref.K256.G, ref.K256.n)
    x, k, m = x % (n - 1) + 1, k % (n - 1) + 1, m % n
    R, Y = rc.mul(k, G), rc.mul(x, G)
    r = R[0] % n
    r2 = other_r(r, n, how, bit, d)
    s2 = (m + x * r2) * pow(k, -1, n) % n
    if not r2 or not s2 or r2 == r or name == 'small' and (r2 - R[0]) % rc.p == 0:
        return
    what = '%s signature of message %x with r %x instead of %x, s %x, key %x, secret %x' % (name, m, r2, r, s2, x, k)
    c.true(not ec.verify(forms(ec, m, kind), on(ec.ec, Y), forms(ec, r2, kind), forms(ec, s2, kind)), 'accepted: ' + what)
    s = (m + x * R[0]) * pow(k, -1, n) % n
    if r and s and R[0] < n:
        c.true(ec.verify(forms(ec, m, kind), on(ec.ec, Y), forms(ec, r, kind), forms(ec, s, kind)), 'the right one is refused: ' + what)
    c.nontrivial()
    c.label('%s %s' % (name, how))


@facet('C19', lambda: st.tuples(gen.keys(), gen.keys(), messages(), st.sampled_from(R_KINDS), gen.integers(0, 255), gen.integers(2, 9), st.sampled_from(KEY_FORMS), st.sampled_from(MSG_FORMS), gen.integers(0, 11)), 160, 'the point is right and the first number is not', shards=8, thorough=24, seq=0)
def fitted_signatures(c, case):
    """signatures of which only the comparison of the first number with the coordinate shows that they are wrong"""
    x, k, msg, how, bit, d, kform, mform, who = case
    n = ref.P256.n
    z = int.from_bytes(digest(msg), 'big')
    r = ref.pub(k)[0] % n
    r2 = other_r(r, n, how, bit, d)
    Q = ref.pub(x)
    for a in (r2, r):
        s = (z + x * a) * pow(k, -1, n) % n
        exp = ref.ecdsa_verify(Q, digest(msg), a, s)
        c.eq(verify(c, msg, b32(a) + b32(s), key_forms(Q)[kform](), mform, who), exp, 'verdict on r %x (%s of %x) s %x key %x message %s' % (a, how, r, s, x, msg.hex()))
    c.nontrivial(r2 != r)
    c.label(how)


# ---------------------------------------------------------------- C27, C29: the first calls of a process

def in_child(fn):
    """fn() in a fork of this process, in which no operation of the library has been called so far; (True, result) or (False, text of a violation)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            try:
                out = (True, fn())
            except Exception as e:
                out = (False, describe(e)) if is_violation(e) else (None, describe(e))
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    data = b''
    try:
        while True:
            ready, _, _ = select.select([rd], [], [], 150)
            if not ready:
                os.kill(pid, signal.SIGKILL)
                raise CheckFailure('no answer within 150 s')
            part = os.read(rd, 1 << 16)
            if not part:
                break
            data += part
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    if not data:
        raise HarnessError('a child ended without an answer')
    ok, out = pickle.loads(data)
    if ok is None:
        raise HarnessError(out)
    return ok, out


def first_works():
    # (the operations are not all equally likely to be the first use of something shared)
    name = st.sampled_from(SAFE_CALLS)
    work = st.lists(st.tuples(name, small()), min_size=1, max_size=2)

    def related(t):
        works, same, sched, ops = t
        if same:
            works = [works[0]] + [[(works[0][i % len(works[0])][0], a) for i, (_, a) in enumerate(w)] for w in works[1:]]
        return works, sched, ops
    return st.tuples(st.lists(work, min_size=2, max_size=3), st.sampled_from([True, True, False]), schedules(), st.booleans()).map(related)


@facet('C29', first_works, 400, 'at least two changes of threads', shards=8, thorough=20, seq=0, fuzz=False,
       corpus=lambda: [([[(n, (7, 5, b'0123456789'))], [(n, (9, 8, b'abc'))]], [(k, 1)], False) for n in SAFE_CALLS for k in ((1, 2, 3, 5, 9) if not n.startswith('refusal') else (2,))])
def first_calls(c, case):
    """the first calls in a process, made by several threads"""
    works, sched, opcodes = case
    alone = [in_child(lambda: answers(w)) for w in works]

    def together():
        t = Turns([lambda w=w: answers(w) for w in works], sched, opcodes)
        return t.run(), t.switches, [answers(w) for w in works]
    ok, out = in_child(together)
    c.true(ok, 'the first calls of a process, made by several threads: %s' % (out,))
    got, switches, after = out
    for i, w in enumerate(works):
        c.eq((True, got[i]), alone[i], '%s as first calls of a process, while other threads run' % (w,))
        c.eq((True, after[i]), alone[i], '%s after the threads' % (w,))
    c.nontrivial(switches >= 2)
    for name in {n for w in works for n, _ in w}:
        c.label('refusal' if name.startswith('refusal') else name)


FIRST = sorted(set(CALLS) - {'nep2', 'root'})


@facet('C27', lambda: st.lists(st.tuples(st.one_of(st.sampled_from([n for n in FIRST if not n.startswith('refusal')]), st.sampled_from(FIRST)), small()), min_size=2, max_size=4), 500, 'at least two different calls', shards=8, thorough=20, seq=0, fuzz=False)
def first_in_process(c, case):
    """a call gives the same result whichever calls come before it in the process, if any"""
    ok, out = in_child(lambda: answers(case))
    c.true(ok, '%s' % (out,))
    for call, got in zip(case[1:], out[1:]):
        c.eq((True, [got]), in_child(lambda: answers([call])), '%s after %s, compared with the first call of a process' % (call, case))
    c.nontrivial(len({n for n, _ in case}) > 1)
    for name in {n for n, _ in case}:
        c.label('refusal' if name.startswith('refusal') else name)
