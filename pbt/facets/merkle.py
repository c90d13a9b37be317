"""C14 Merkle trees, C15 trimming."""
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet
from pbt.facets.io_var import grow

from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256

COUNTS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 19, 21, 23, 25, 31, 32, 33, 37, 47, 63, 64, 65, 97, 127, 128, 129, 200, 255, 256, 257, 513]


def leaves(maxn=40):
    """(base hashes, count): grown to count hashes; a small base with count above it gives near-duplicates"""
    return st.tuples(st.lists(gen.fixed(32), min_size=1, max_size=7), st.one_of(gen.integers(1, maxn), st.sampled_from([k for k in COUNTS if k <= max(maxn, 1) * 8])), st.lists(st.tuples(gen.integers(0, 600), gen.integers(0, 600)), max_size=3))


def build(t):
    hs = grow(t[:2])
    for i, j in t[2]:
        hs[i % len(hs)] = hs[j % len(hs)]   # exact duplicates
    return hs


def objects(hs, kind):
    """kind 'same': equal hashes are one object"""
    if kind == 'same':
        seen = {}
        return [seen.setdefault(h, UInt256(data=h)) for h in hs]
    return [UInt256(data=h if kind == 'bytes' else bytearray(h)) for h in hs]


def val(h):
    return bytes(h.ToArray())


@facet('C14', lambda: st.tuples(leaves(), st.sampled_from(['bytes', 'bytearray', 'same']), st.sampled_from(['list', 'list', 'tuple'])), 5000, 'at least three leaves', shards=8,
       corpus=lambda: [(([bytes([7]) * 32, bytes(range(32))], n, []), 'bytes', 'list') for n in sorted(set(list(range(1, 130)) + [255, 256, 257, 511, 512, 513, 1000, 1023, 1025, 2047, 2049, 4095, 4097, 8193, 10001] + gen.sizes_near(130, 9000)))]
       + [((hs, len(hs), []), 'bytes', 'list') for h in gen.crafted('leaves') for hs in ([h, b'\x11' * 32], [h, h], [bytes(32), h, h])])
def root(c, case):
    t, kind, seq = case
    hs = build(t)
    objs = objects(hs, kind)
    arg = list(objs) if seq == 'list' else tuple(objs)
    got = MerkleTree.ComputeRoot(arg)
    c.eq(val(got), ref.merkle_root(hs), 'root of %d hashes' % len(hs))
    c.true(isinstance(got, UInt256), 'type of the root %r' % type(got))
    c.true(len(arg) == len(objs) and all(a is b for a, b in zip(arg, objs)) and [val(o) for o in objs] == hs, 'the list or its hashes were modified')
    c.eq(val(MerkleTree.ComputeRoot(objects(hs, 'bytes'))), ref.merkle_root(hs), 'root computed again')
    c.nontrivial(len(hs) >= 3)
    n = len(hs)
    lv = 0
    while n > 1:
        if n % 2:
            c.label('odd level %d' % lv)
        n, lv = (n + 1) // 2, lv + 1


def walk(c, node, levels, depth, index, seen):
    """compare the node with its place in the reference levels; every path from the root is followed"""
    c.eq(val(node.Hash), levels[depth][index], 'hash of node %d at height %d' % (index, depth))
    if depth == 0:
        c.true(node.IsLeaf() and node.LeftChild is None and node.RightChild is None, 'leaf %d has children' % index)
        return
    c.true(not node.IsLeaf(), 'inner node is a leaf')
    c.true(node.LeftChild.Parent is node and node.RightChild.Parent is node, 'parent links at height %d' % depth)
    c.true(not node.LeftChild.IsRoot() and not node.RightChild.IsRoot(), 'child is a root')
    walk(c, node.LeftChild, levels, depth - 1, 2 * index, seen)
    if 2 * index + 1 < len(levels[depth - 1]):
        c.true(node.LeftChild is not node.RightChild, 'two children are one node')
    walk(c, node.RightChild, levels, depth - 1, min(2 * index + 1, len(levels[depth - 1]) - 1), seen)


@facet('C14', lambda: st.tuples(leaves(24), st.sampled_from(['bytes', 'bytearray', 'same'])), 3500, 'at least three leaves', shards=6,
       corpus=lambda: [(([bytes([9]) * 32, bytes(range(32))], n, []), 'bytes') for n in list(range(1, 70)) + [1025, 2049, 4097] + gen.sizes_near(130, 4500, (1,))] + [(([bytes([9]) * 32], n, [(i, 0) for i in range(1, n)]), 'same') for n in range(1, 20)])
def tree(c, case):
    t, kind = case
    hs = build(t)
    objs = objects(hs, kind)
    arg = list(objs)
    m = MerkleTree(arg)
    levels = ref.merkle_levels(hs)
    c.eq(m.Depth, len(levels), 'depth of a tree of %d leaves' % len(hs))
    c.true(m.Root.IsRoot() and m.Root.Parent is None, 'root node has a parent')
    c.eq(val(m.Root.Hash), levels[-1][0], 'root hash')
    c.eq(val(MerkleTree.ComputeRoot(objs)), levels[-1][0], 'ComputeRoot')
    walk(c, m.Root, levels, len(levels) - 1, 0, set())
    got = m.ToHashArray()
    c.true(isinstance(got, list) and sorted(val(h) for h in got) == sorted(set(hs)), 'ToHashArray of %d leaves (%d different) has %d items' % (len(hs), len(set(hs)), len(got)))
    c.true(len(arg) == len(objs) and all(a is b for a, b in zip(arg, objs)) and [val(o) for o in objs] == hs, 'the list or its hashes were modified')
    c.nontrivial(len(hs) >= 3)
    c.label('duplicates' if len(set(hs)) < len(hs) else 'distinct')


@facet('C14', lambda: st.tuples(leaves(40), gen.integers(0, 10 ** 4), gen.integers(0, 31), gen.integers(1, 255), gen.integers(0, 10 ** 4)), 1500, 'change of one leaf, or exchange of two different leaves')
def root_binds_leaves(c, case):
    """changing or exchanging leaves changes the root (a collision of SHA-256 is not expected)"""
    t, i, pos, mask, j = case
    hs = build(t)
    before = val(MerkleTree.ComputeRoot(objects(hs, 'bytes')))
    i, j = i % len(hs), j % len(hs)
    b = bytearray(hs[i])
    b[pos] ^= mask
    other = hs[:i] + [bytes(b)] + hs[i + 1:]
    c.true(val(MerkleTree.ComputeRoot(objects(other, 'bytes'))) != before, 'changing leaf %d of %d keeps the root' % (i, len(hs)))
    if hs[i] != hs[j]:
        other = list(hs)
        other[i], other[j] = hs[j], hs[i]
        c.true(val(MerkleTree.ComputeRoot(objects(other, 'bytes'))) != before, 'exchanging leaves %d and %d of %d keeps the root' % (i, j, len(hs)))
    c.nontrivial()


@facet('C14', lambda: st.sampled_from(['root list', 'root tuple', 'tree list']), 6, 'every case', shards=1, fuzz=False)
def empty(c, case):
    if case == 'root list':
        c.raises(lambda: MerkleTree.ComputeRoot([]), 'ComputeRoot([])')
    elif case == 'root tuple':
        c.raises(lambda: MerkleTree.ComputeRoot(()), 'ComputeRoot(())')
    else:
        c.raises(lambda: MerkleTree([]), 'MerkleTree([])')
    c.nontrivial()


# ---------------------------------------------------------------- C15


def flags(maxn):
    byte = st.sampled_from([0, 0, 0, 1, 0x11, 0xff, 0x80])
    return st.one_of(st.lists(byte, max_size=maxn), st.lists(st.sampled_from([0, 0, 0, 0, 0, 0, 1]), max_size=maxn), st.tuples(gen.integers(0, maxn), gen.integers(0, 255)).map(lambda t: [0] * t[0] + [t[1]]),
                     st.tuples(gen.integers(0, maxn), gen.integers(0, maxn)).map(lambda t: [1] * t[0] + [0] * t[1])).map(bytes)


def compare(c, node, exp, path):
    h, left, right = exp
    c.eq(val(node.Hash), h, 'hash of node %r' % path)
    if left is None:
        c.true(node.LeftChild is None and node.RightChild is None, 'node %r still has children' % path)
        return
    c.true(node.LeftChild is not None and node.RightChild is not None, 'node %r lost its children' % path)
    compare(c, node.LeftChild, left, path + 'L')
    compare(c, node.RightChild, right, path + 'R')


def remaining(exp, out):
    if exp[1] is None:
        out.add(exp[0])
    else:
        remaining(exp[1], out)
        remaining(exp[2], out)
    return out


def trim_case():
    return st.one_of(gen.integers(1, 9), gen.integers(1, 33), st.sampled_from([k for k in COUNTS if k < 70])).flatmap(
        lambda n: st.tuples(st.just(n), st.lists(gen.fixed(32), min_size=1, max_size=4), flags(n + 6), flags(n + 6), st.sampled_from(['bytes', 'bytearray', 'list']), st.booleans()))


def all_small():
    """every zero/non-zero pattern for up to 8 leaves"""
    base = [bytes(range(32)), b'\xaa' * 32]
    out = []
    for n in range(1, 9):
        for mask in range(1 << n):
            out.append((n, base, bytes(17 * (mask >> i & 1) for i in range(n)), b'', 'bytes', False))
    for n in (9, 10, 11, 12, 13, 16, 17):
        for i in range(n + 2):
            out.append((n, base, bytes([0] * i + [1]), b'', 'bytearray', False))
    return out


@facet('C15', trim_case, 6000, 'some pair kept and some pair removed', shards=8, corpus=all_small)
def trim(c, case):
    n, base, f1, f2, kind, twice = case
    hs = grow((base, n))
    m = MerkleTree(objects(hs, 'same' if twice else 'bytes'))
    conv = {'bytes': bytes, 'bytearray': bytearray, 'list': list}[kind]
    arg = conv(f1)
    m.Trim(arg)
    c.eq(arg, conv(f1), 'flags given')
    exp = ref.merkle_trim(hs, f1)
    compare(c, m.Root, exp, '')
    c.eq(val(m.Root.Hash), ref.merkle_root(hs), 'root hash after trimming')
    c.eq(sorted(val(h) for h in m.ToHashArray()), sorted(remaining(exp, set())), 'hashes remaining after trimming')
    if twice:
        # trimming again keeps a pair only if both trimmings keep it
        m.Trim(conv(f2))
        k = max(len(f1), len(f2), n) + 2
        a, b = f1.ljust(k, b'\0'), f2.ljust(k, b'\0')
        both = b''.join(b'\1\1' if (a[i] or a[i + 1]) and (b[i] or b[i + 1]) else b'\0\0' for i in range(0, k - 1, 2))
        compare(c, m.Root, ref.merkle_trim(hs, both), '')
        c.label('twice')
    pairs = [any(f1[i:i + 2]) for i in range(0, n, 2)]
    c.nontrivial(n > 1 and any(pairs) and not all(pairs))
    c.label('leaves %s' % (n if n < 6 else '6+'))


def large_trim_case():
    """trees of some hundred leaves; the flags that are set are given by their positions and ranges"""
    n = st.one_of(st.sampled_from([64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 384, 511, 512, 513, 600, 700, 1000, 1023, 1024, 1025]), gen.integers(34, 800))
    return n.flatmap(lambda k: st.tuples(st.just(k), gen.fixed(32), st.lists(st.one_of(gen.integers(0, k + 1), st.tuples(gen.integers(0, k), gen.integers(1, k))), max_size=6), gen.integers(1, 255), st.booleans()))


@facet('C15', large_trim_case, 160, 'some pair kept and some pair removed', shards=4, seq=0.02,
       corpus=lambda: [(n, bytes(range(32)), [0, n // 2, n - 1, (n // 3, n // 5)], 1, inv) for n in [2049, 4097] + gen.sizes_near(130, 4500, (1,)) for inv in (False, True)])
def trim_large(c, case):
    n, base, marks, v, invert = case
    f = bytearray(n)
    for m in marks:
        for i in ([m] if isinstance(m, int) else range(m[0], min(n, m[0] + m[1]))):
            if i < n:
                f[i] = v
    if invert:
        f = bytearray(0 if b else v for b in f)
    hs = grow(([base], n))
    tree_ = MerkleTree(objects(hs, 'bytes'))
    tree_.Trim(bytes(f))
    exp = ref.merkle_trim(hs, bytes(f))
    compare(c, tree_.Root, exp, '')
    c.eq(sorted(val(h) for h in tree_.ToHashArray()), sorted(remaining(exp, set())), 'hashes remaining after trimming')
    pairs = [any(f[i:i + 2]) for i in range(0, n, 2)]
    c.nontrivial(any(pairs) and not all(pairs))
