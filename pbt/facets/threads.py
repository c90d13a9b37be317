"""C29 calls made by several threads at the same time give the results they give alone.

The threads of a case are real threads, but only one runs at a time: a trace function counts the executed lines (or byte
code operations) of neocore and hands the turn over where the generated schedule says so. A case therefore is a
deterministic interleaving, and shrinks like any other case."""
import io
import os
import sys
import threading

import bitcoin
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import PKG, CheckFailure, HarnessError, facet
from pbt.facets import history, io_stream
from pbt.facets.history import OPS, TABLE, State, b32, plain
from pbt.facets.processes import TABLE as CALLS, answers

from neocore.BigInteger import BigInteger
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto
from neocore.Cryptography.ECCurve import ECDSA, FiniteField
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.Fixed8 import Fixed8
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.KeyPair import KeyPair
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

STALL = 3.0
TRACED = (PKG, os.path.dirname(os.path.realpath(bitcoin.__file__)) + os.sep + 'main.py')


class Stop(BaseException):
    """ends a thread of a case that was given up"""


class Turns:
    """Runs functions in threads, one at a time, and changes threads according to the schedule."""

    def __init__(self, fns, schedule, opcodes):
        self.fns = fns
        self.schedule = schedule or [(1, 1)]
        self.opcodes = opcodes
        self.at = 0
        self.cycle = 0
        self.budget = 0
        self.free = self.stop = False
        self.steps = self.switches = 0
        self.go = [threading.Semaphore(0) for _ in fns]
        self.alive = [True] * len(fns)
        self.out = [None] * len(fns)
        self.codes = {}

    def next_turn(self, me):
        """the thread that goes on, with a new budget"""
        n, who = self.schedule[self.at]
        self.at += 1
        if self.at == len(self.schedule):
            self.at = 0
            self.cycle += 1
        self.budget = n << min(self.cycle, 20)
        alive = [i for i in range(len(self.fns)) if self.alive[i]]
        return alive[(who + me) % len(alive)] if alive else None

    def step(self, me):
        self.steps += 1
        if self.stop:
            raise Stop()
        if self.free:
            return
        self.budget -= 1
        if self.budget > 0:
            return
        to = self.next_turn(me)
        if to != me:
            self.switches += 1
            self.go[to].release()
            self.go[me].acquire()
            if self.stop:
                raise Stop()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self.step(me)
            return local

        def trace(frame, event, arg):
            code = frame.f_code
            want = self.codes.get(code)
            if want is None:
                want = self.codes[code] = os.path.realpath(code.co_filename).startswith(TRACED[0]) or code.co_name == 'change_curve'
            if not want:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return trace

    def body(self, me):
        self.go[me].acquire()
        try:
            if self.stop:
                return
            sys.settrace(self.tracer(me))
            try:
                self.out[me] = (True, self.fns[me]())
            finally:
                sys.settrace(None)
        except Stop:
            pass
        except BaseException as e:
            self.out[me] = (False, e)
        finally:
            self.alive[me] = False
            to = self.next_turn(me)
            if to is not None:
                self.go[to].release()

    def run(self):
        # the state in which the package starts, or another user left it, before the threads start
        bitcoin.change_curve(ref.K256.p, ref.K256.n, 0, 7, *ref.K256.G)
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in threads:
            t.start()
        try:
            self.go[0].release()
            seen, waited = -1, 0.0
            while any(t.is_alive() for t in threads):
                for t in threads:
                    if t.is_alive():
                        t.join(0.1)
                        break
                waited = waited + 0.1 if self.steps == seen else 0.0
                seen = self.steps
                if waited > STALL and not self.free:
                    # a thread with the turn waits for one without it (a lock): let all run
                    self.free = True
                    for g in self.go:
                        g.release()
                if waited > 100:
                    raise CheckFailure('the threads wait for each other for ever')
        finally:
            if any(t.is_alive() for t in threads):
                self.stop = True
                for g in self.go:
                    for _ in range(3):
                        g.release()
                for t in threads:
                    t.join(2)
        for ok, e in (o for o in self.out if o is not None):
            if not ok:
                raise e
        if any(o is None for o in self.out):
            raise HarnessError('a thread ended without a result')
        return [v for _, v in self.out]


def schedules():
    n = st.one_of(gen.integers(1, 6), gen.integers(1, 40), gen.integers(1, 40), st.sampled_from([100, 1000, 10000]))
    return st.lists(st.tuples(n, st.sampled_from([1, 1, 1, 2, 0])), min_size=1, max_size=25)


def small():
    return st.tuples(st.one_of(gen.integers(1, 5), gen.keys()), gen.integers(0, 1000), st.one_of(st.sampled_from([b'', b'\0' * 8, b'message', b'0123456789abcdef0123']), gen.blobs(0, 30)))


SAFE_CALLS = sorted(set(CALLS) - {'cli', 'cli address', 'root', 'nep2'})  # use the global standard output
HEAVY = {'verify', 'point sum', 'point decoding', 'point order', 'bad key', 'private key', 'KeyPair', 'KeyPair hash', 'PrivateKey', 'encode_point', 'Sign', 'decode', 'WIF', 'pubkey helpers'}


def calls():
    name = st.one_of(st.sampled_from([x for x in SAFE_CALLS if x not in HEAVY]), st.sampled_from(SAFE_CALLS))
    work = st.lists(st.tuples(name, small()), min_size=1, max_size=4)

    def related(t):
        """threads that do similar things are more likely to share something"""
        works, same, sched, ops = t
        if same:
            first = works[0]
            works = [first] + [[(first[i % len(first)][0], a) for i, (_, a) in enumerate(w)] for w in works[1:]]
        return works, sched, ops
    return st.tuples(st.lists(work, min_size=2, max_size=3), st.booleans(), schedules(), st.booleans()).map(related)


def run_calls(work):
    return answers(work)


@facet('C29', calls, 2600, 'at least two changes of threads', shards=8, thorough=12, seq=0, fuzz=False,
       corpus=lambda: [([[(n, (7, 5, b'0123456789'))] * 2, [(n, (9, 8, b'abc'))] * 2], [(k, 1)], bool(k % 2)) for n in SAFE_CALLS for k in (1, 2, 3, 5, 9)])
def interleaved_calls(c, case):
    """calls with arguments of their own, interleaved"""
    works, sched, opcodes = case
    expected = [run_calls(w) for w in works]
    t = Turns([lambda w=w: run_calls(w) for w in works], sched, opcodes)
    got = t.run()
    for i, w in enumerate(works):
        for (name, args), g, e in zip(w, got[i], expected[i]):
            c.eq(g, e, '%s%r while other threads run' % (name, args))
        c.eq(run_calls(w), expected[i], '%s again, after the threads' % (w,))
    c.nontrivial(t.switches >= 2)
    for name in {n for w in works for n, _ in w}:
        c.label(name)


THREAD_OPS = [f.__name__ for f in OPS if f.__name__ not in ('op_nep2', 'op_address')]  # these replace parts of modules


def op_lists():
    return st.tuples(st.lists(st.lists(history.step(THREAD_OPS), min_size=1, max_size=3), min_size=2, max_size=3), schedules(), st.booleans())


@facet('C29', op_lists, 500, 'at least two changes of threads', shards=8, thorough=12, seq=0, fuzz=False)
def interleaved_operations(c, case):
    """the operations of the histories (C27), each compared with its reference, interleaved"""
    works, sched, opcodes = case

    def run(work):
        s = State(c)
        for name, k, form, blob in work:
            TABLE[name](s, k, form, blob)
        s.check_kept()
    t = Turns([lambda w=w: run(w) for w in works], sched, opcodes)
    t.run()
    c.nontrivial(t.switches >= 2)
    for name in {x[0] for w in works for x in w}:
        c.label(name)


def stream_lists():
    lists = st.lists(st.lists(io_stream.item(), min_size=1, max_size=5), min_size=2, max_size=3)
    return st.tuples(lists, st.booleans(), schedules(), st.booleans())


@facet('C29', stream_lists, 1500, 'at least two changes of threads', shards=8, thorough=12, seq=0, fuzz=False)
def interleaved_streams(c, case):
    """every thread writes items to a stream of its own and reads them back"""
    lists, similar, sched, opcodes = case
    if similar:
        lists = [lists[0]] + [[lists[0][i % len(lists[0])] if i % 2 else it for i, it in enumerate(items)] for items in lists[1:]]

    def run(items):
        s = io.BytesIO()
        w = BinaryWriter(s)
        log = b''
        for it in items:
            io_stream.write(w, it)
            log += io_stream.encode(it)
            c.true(s.getvalue() == log, 'after writing %r while other threads run the stream is ..%s, expected ..%s' % (it, s.getvalue()[-60:].hex(), log[-60:].hex()))
        s.seek(0)
        r = BinaryReader(s)
        for it in items:
            c.eq(io_stream.read(r, it), io_stream.expected(it), 'read of %r while other threads run' % (it,))
        c.eq(s.tell(), len(log), 'end of the stream')
    t = Turns([lambda x=x: run(x) for x in lists], sched, opcodes)
    t.run()
    c.nontrivial(t.switches >= 2)
    for k in {it[0] for items in lists for it in items}:
        c.label(k)


def serialized(u):
    out = io.BytesIO()
    u.Serialize(BinaryWriter(out))
    return out.getvalue()


def deserialized(cls, data):
    u = cls()
    u.Deserialize(BinaryReader(io.BytesIO(data)))
    return plain(u)


def written(write):
    out = io.BytesIO()
    write(BinaryWriter(out))
    return out.getvalue()


class Shared:
    """objects all threads of a case look at"""

    def __init__(self, k, form, blob):
        self.u160 = UInt160(data=ref.hash160(blob))
        self.u256 = UInt256(data=b'\xff' + ref.sha256(blob)[1:])
        self.other = UInt256(data=b'\xff' + ref.sha256(blob + b'x')[1:])
        self.hashes = history.hashes_of(form, blob)
        self.tree = MerkleTree(list(self.hashes))
        self.pair = KeyPair(b32(k))
        self.point = self.pair.PublicKey
        self.ec = ECDSA.secp256r1()
        self.field = FiniteField([ref.P256.p, 8191, 13][form % 3])
        self.value = self.field.value(k % self.field.p)
        self.big = BigInteger(k - form)
        self.amount = Fixed8(k % 2 ** 60 - form)
        self.data = bytearray(blob)
        self.crypto = Crypto.Default()
        self.k, self.form, self.blob = k, form, blob


LOOKS = {
    'u160 text': lambda s: (str(s.u160), s.u160.To0xString(), hash(s.u160), bytes(s.u160.ToBytes())),
    'u160 address': lambda s: (Crypto.ToAddress(s.u160), s.crypto.Hash160(s.data), Helper.scripthash_to_address(s.u160.ToArray())),
    'u256 text': lambda s: (str(s.u256), s.u256.ToString(), hash(s.u256)),
    'u256 order': lambda s: (s.u256 == s.other, s.u256 < s.other, s.u256 >= s.other, s.u256.CompareTo(s.other)),
    'u256 wire': lambda s: (serialized(s.u256), serialized(s.other), written(lambda w: w.WriteUInt256(s.u256))),
    'u160 wire': lambda s: (deserialized(UInt160, bytes(s.u160.ToArray())), written(lambda w: w.WriteVarBytes(s.data)), written(lambda w: w.WriteHashes([str(s.u256).encode()] * 3))),
    'root': lambda s: plain(MerkleTree.ComputeRoot(s.hashes)),
    'tree': lambda s: history.tree_view(MerkleTree(s.hashes).Root),
    'tree hashes': lambda s: sorted(bytes(x.ToArray()) for x in s.tree.ToHashArray()),
    'pair': lambda s: (s.pair.GetAddress(), s.pair.Export(), bytes(s.pair.PublicKeyHash.ToArray())),
    'point': lambda s: (bytes(s.point.encode_point(True)), bytes(s.point.encode_point(False)), s.point == s.ec.G, s.point < s.ec.G),
    'point wire': lambda s: serialized(s.point),
    'point sum': lambda s: (history.xy(s.point + s.ec.G), history.xy(-s.point), history.xy(s.point - s.ec.G)),
    'point double': lambda s: (history.xy(s.point + s.point), history.xy(s.ec.G + s.ec.G), history.xy(s.point - s.point)),
    'point multiple': lambda s: (history.xy(s.point * (s.form % 9)), history.xy(s.ec.G * (s.form % 7 - 3))),
    'point checks': lambda s: (s.point.isoncurve(), s.point.IsInfinity, s.ec.G.iszero(), s.point.Size()),
    'curve decoding': lambda s: [history.xy(s.ec.Curve.decode_from_hex(p.encode_point(z))) for p, z in ((s.point, True), (s.ec.G, True), (s.point, False))],
    'curve reading': lambda s: [history.xy(s.ec.Curve.decode_from_reader(BinaryReader(io.BytesIO(bytes.fromhex(p.encode_point(True).decode()))))) for p in (s.ec.G, s.point)],
    'curve decompress': lambda s: [history.xy(s.ec.Curve.decompress(p.x.value, f)) for p, f in ((s.point, 0), (s.ec.G, 1))],
    'field inverse': lambda s: ((2 / (s.value + 5 if s.value == -5 else s.value + 1 if s.value == 0 else s.value)).value, (s.value / 3).value),
    'field root': lambda s: [((s.value + d) ** 2).sqrt(f).value for d, f in ((0, 0), (1, 1), (2, 0))],
    'field values': lambda s: (s.field.value('0b').value, s.field.one() == s.value, (5 - s.value).value, (7 * s.value).value),
    'group order': lambda s: ((s.ec.GFn.value(s.k) * s.form).value, (s.ec.GFn.value(s.form + 1) / 7).value),
    'field': lambda s: ((s.value + 1).value, (s.value * s.value).value, (-s.value).value % s.field.p, (s.value ** 3).value),
    'big': lambda s: (int(s.big + 1), int(s.big * s.big), bytes(s.big.ToByteArray()), s.big == s.form),
    'amount': lambda s: (s.amount.ToString(), (s.amount + s.amount).value, s.amount.Ceil().value, s.amount.Floor().value, s.amount.GetData()),
    'amount wire': lambda s: written(lambda w: w.WriteFixed8(s.amount)),
    'sign': lambda s: bytes(Crypto.Sign(s.blob.hex(), b32(s.k))),
    'hashes': lambda s: (Crypto.Hash160(s.data), bytes(Crypto.Hash256(s.data)), Helper.bin_dbl_sha256(s.data), Crypto.ToScriptHash(s.data, unhex=False).ToString()),
    'xor': lambda s: bytes(Helper.xor_bytes(s.blob, s.blob[::-1])),
}


GROUPS = [[n for n in sorted(LOOKS) if n.split()[0] in words] for words in (('point', 'curve', 'pair'), ('field', 'group'), ('u160', 'u256', 'hashes', 'xor'), ('root', 'tree', 'hashes'), ('amount', 'big'))]


def looks():
    names = st.lists(st.sampled_from(sorted(LOOKS)), min_size=1, max_size=5)
    return st.tuples(small(), st.lists(names, min_size=2, max_size=3), st.booleans(), schedules(), st.booleans()).map(lambda t: (t[0], [t[1][0]] * len(t[1]) if t[2] else t[1], t[3], t[4]))


@facet('C29', looks, 1200, 'at least two changes of threads', shards=8, thorough=12, seq=0, fuzz=False,
       corpus=lambda: [((7, 5, b'0123456789'), [[n, n], [n, n]], [(k, 1)], bool(k % 2)) for n in sorted(LOOKS) for k in (1, 2, 3, 5, 9)]
       + [((7, 5, b'0123456789'), [[n, m], [m, n]], sched, bool(k % 2)) for g in GROUPS for n in g for m in g if n < m for k, sched in enumerate(([(3, 1)], [(7, 1), (4, 1)], [(40, 1), (9, 1), (100, 1)], [(300, 1), (17, 1)]))])
def shared_objects(c, case):
    """several threads look at the same objects"""
    args, works, sched, opcodes = case
    one, two = Shared(*args), Shared(*args)
    expected = {n: LOOKS[n](one) for w in works for n in w}
    t = Turns([lambda w=w: [LOOKS[n](two) for n in w] for w in works], sched, opcodes)
    got = t.run()
    for w, out in zip(works, got):
        for n, g in zip(w, out):
            c.eq(g, expected[n], '%s of shared objects %r while other threads look at them' % (n, args))
    for n in expected:
        c.eq(LOOKS[n](two), expected[n], '%s after the threads' % n)
        c.label(n)
    c.nontrivial(t.switches >= 2)


def stream_work(items):
    """writes items to a stream and reads them back: what is in the stream, and what was read"""
    s = io.BytesIO()
    w = BinaryWriter(s)
    for it in items:
        io_stream.write(w, it)
    data = s.getvalue()
    s.seek(0)
    r = BinaryReader(s)
    return data, [io_stream.read(r, it) for it in items], s.tell()


PAIRS = [('Int16', 513, '<'), ('UInt32', 7, '>'), ('UInt64', 2 ** 63 + 5, '<'), ('VarInt', 40000, True), ('VarInt', 2 ** 40 + 9, True), ('VarInt', 3, True), ('VarInt', 2 ** 20 + 9, True), ('VarBytes', b'abc', 1), ('VarBytes', b'xy', 300), ('VarString', 'f\u00fcr', 1),
         ('VarString', 'other', 70), ('FixedString', 'ab', 3), ('FixedString', 'xyz', 5), ('UInt160', bytes(range(200, 220)), ), ('UInt256', bytes(range(200, 232))), ('Fixed8', -5), ('Bool', True), ('Byte', 200), ('Char', 65), ('Float', 0x3f800000, '<'), ('Double', 5, '>'),
         ('Hashes', [bytes([i]) * 32 for i in (1, 2)]), ('Hashes', [bytes(range(32))] * 3), ('Array', [(b'ab', 5), (b'', 9)]), ('Array', [(b'xyz', 7)]), ('Raw', b'raw'), ('Point', 5, True), ('Point', 6, True), ('Infinity',)]


def switch_case():
    two = st.tuples(small(), small())
    call = st.tuples(st.just('call'), st.sampled_from([n for n in SAFE_CALLS if n not in HEAVY]), st.sampled_from(SAFE_CALLS), two, st.booleans()).map(lambda t: ('call', (t[1], t[3][0]), (t[1] if t[4] else t[2], t[3][1])))
    look = st.tuples(st.sampled_from(sorted(LOOKS)), st.sampled_from(GROUPS).flatmap(st.sampled_from), small(), st.booleans()).map(lambda t: ('look', (t[0], t[2]), (t[0] if t[3] else t[1], t[2])))
    own = st.tuples(st.sampled_from(sorted(LOOKS)), two).map(lambda t: ('own', (t[0], t[1][0]), (t[0], t[1][1])))
    items = st.lists(io_stream.item(), min_size=1, max_size=2)
    stream = st.tuples(items, items).map(lambda t: ('stream', t[0], t[1]))
    return st.tuples(st.one_of(call, look, own, stream, stream), gen.integers(0, 40), st.sampled_from([False, False, True]))


def switch_corpus():
    out = []
    a, b = (7, 5, b'0123456789'), (9, 8, b'abc')
    for n in SAFE_CALLS:
        if not n.startswith('refusal'):
            out.append((('call', (n, a), (n, b)), 0, False))
    for n in sorted(LOOKS):
        out.append((('own', (n, a), (n, b)), 0, False))
        out.append((('own', (n, b), (n, a)), 3, True))
    for g in GROUPS:
        out.extend((('look', (n, a), (m, a)), 0, False) for n in g for m in g)
    for x in PAIRS:
        for y in PAIRS:
            if x[0] == y[0] or x[0][:3] == 'Var' == y[0][:3]:
                out.append((('stream', [x], [y]), 0, x is not y and x[0] not in ('Hashes', 'Array', 'Point')))
    return out


@facet('C29', switch_case, 350, 'a change of threads within a call', shards=8, thorough=20, seq=0, fuzz=False, corpus=switch_corpus, spread=True)
def single_switch(c, case):
    """one thread is stopped at each of its steps in turn (at up to 60 of them); another makes its call from start to end there, then the first one goes on"""
    (kind, one, two), offset, opcodes = case
    if kind == 'call':
        fns = [lambda: answers([one]), lambda: answers([two])]
    elif kind == 'stream':
        fns = [lambda: stream_work(one), lambda: stream_work(two)]
    else:
        shared = [Shared(*one[1])]
        shared.append(shared[0] if kind == 'look' else Shared(*two[1]))
        fns = [lambda: LOOKS[one[0]](shared[0]), lambda: LOOKS[two[0]](shared[1])]
    expected = [fn() for fn in fns]
    alone = Turns([fns[0]], [(1 << 40, 0)], opcodes)
    c.eq(alone.run()[0], expected[0], '%s %r in a thread of its own' % (kind, one))
    n = alone.steps
    other = Turns([fns[1]], [(1 << 40, 0)], opcodes)
    other.run()
    step = max(1, n // (8 if 'verify' in (one[0], two[0]) else min(60, max(8, 150000 // (n + other.steps)))))  # fewer stops where the calls are long
    for at in range(1 + (offset % step), n + 1, step):
        t = Turns(fns, [(at, 0), (1 << 40, 1)], opcodes)
        got = t.run()
        for who, g, e in zip((one, two), got, expected):
            c.eq(g, e, '%s %r: %r was stopped at its step %d (of %d), %r ran, then it went on' % (kind, who, one, at, n, two))
        if t.switches:
            c.nontrivial()
    for fn, e, who in zip(fns, expected, (one, two)):
        c.eq(fn(), e, '%s %r after the threads' % (kind, who))
    c.label(kind)
