"""C25 the command line tool np-utils."""
import contextlib
import io
import json
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from pbt import core, gen, ref
from pbt.core import facet
from pbt.facets.address import address_hash, address_text, mangled_address, script_hashes

from neocore.bin import cli


def run(args):
    """(exit status, standard output, standard error) of np-utils in this process"""
    out, err = io.StringIO(), io.StringIO()
    saved = sys.argv
    sys.argv = ['np-utils'] + list(args)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cli.main()
                code = 0
            except SystemExit as e:
                code = e.code
                if code is None:
                    code = 0
                elif not isinstance(code, int):
                    err.write(str(code))
                    code = 1
                else:
                    # what is left of it as the status of a process
                    code &= 0xff
    finally:
        sys.argv = saved
    return code, out.getvalue(), err.getvalue()


def run_process(args):
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'neocore.bin.cli'] + list(args), env=env, cwd='/', stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def line(out, label):
    """the text behind a label of the output"""
    found = [x for x in out.splitlines() if label in x.lower()]
    return found[0].split(':', 1)[1].strip() if found and ':' in found[0] else None


def shows_hash(out):
    return re.search('[0-9a-fA-F]{40}', out) is not None or "b'" in out or 'b"' in out


def shows_address(out):
    return any(address_hash(w) is not None for w in re.findall('[1-9A-HJ-NP-Za-km-z]+', out))


def check_to_hash(c, res, h, what):
    code, out, err = res
    c.eq(code, 0, '%s: exit status (output %r %r)' % (what, out, err))
    c.eq(line(out, 'big endian'), '0x' + h[::-1].hex(), '%s: big endian' % what)
    c.eq(line(out, 'little endian'), h.hex(), '%s: little endian' % what)
    c.eq(line(out, 'neo-python format'), repr(h), '%s: raw form' % what)


def check_to_address(c, res, h, what):
    code, out, err = res
    c.eq(code, 0, '%s: exit status (output %r %r)' % (what, out, err))
    c.eq(out.splitlines()[-1:], [ref.address_of_hash(h)], '%s: address' % what)


def check_refused(c, res, what, shows):
    code, out, err = res
    c.true(code not in (0, None), '%s: exit status %r, output %r' % (what, code, out))
    c.true(bool(out.strip() or err.strip()), '%s: no error message' % what)
    c.true(not shows(out), '%s: printed a result: %r' % (what, out))


@facet('C25', lambda: st.tuples(script_hashes(), st.sampled_from(['big', 'little', 'BIG', 'LITTLE'])), 4000, 'script hash not constant', shards=8,
       corpus=lambda: [(h, f) for h in (bytes(20), b'\xff' * 20, bytes(range(20)), b'0x' + b'0' * 18, b"'\"\\\n\t" * 4) for f in ('big', 'little', 'BIG', 'LITTLE')])
def conversions(c, case):
    h, form = case
    address = ref.address_of_hash(h)
    check_to_hash(c, run(['--address-to-scripthash', address]), h, address)
    text = {'big': '0x' + h[::-1].hex(), 'BIG': '0x' + h[::-1].hex().upper(), 'little': h.hex(), 'LITTLE': h.hex().upper()}[form]
    res = run(['--scripthash-to-address', text])
    check_to_address(c, res, h, text)
    res = run(['--scripthash-to-address=' + text])
    check_to_address(c, res, h, text)
    both = run(['--address-to-scripthash', address, '--scripthash-to-address', text])
    check_to_hash(c, both, h, address + ' ' + text)
    check_to_address(c, both, h, address + ' ' + text)
    c.nontrivial(len(set(h)) > 1)
    c.label(form)


@st.composite
def bad_hash(draw):
    h = draw(script_hashes()).hex()
    how = draw(st.sampled_from(['cut', 'extend', 'char', 'prefix', 'front', 'blank', 'text', 'odd', 'double']))
    i = draw(gen.integers(0, 50))
    ch = draw(st.sampled_from('gGxXzZ-_ .:é０\u0661lOΑ'))
    pre = draw(st.sampled_from(['', '0x']))
    if how == 'cut':
        h = h[:i % 40]
    elif how == 'extend':
        h = h + '0123456789abcdef'[i % 16] * (1 + i % 5)
    elif how == 'char':
        h = h[:i % 40] + ch + h[i % 40 + 1:]
    elif how == 'prefix':
        pre = draw(st.sampled_from(['0', 'x', '0x0x', '0x0', '0y', 'ox', '00x', '0X', '0X0x']))
    elif how == 'front':
        h = '0' * (1 + i % 4) + h
    elif how == 'blank':
        h = h[:i % 40] + ' ' + h[i % 40:]
    elif how == 'text':
        h = draw(gen.texts(0, 44))
    elif how == 'odd':
        h = h[:2 * (i % 20) + 1]
    elif how == 'double':
        h = h * 2
    return pre + h


def valid_hash(text):
    if text[:2] == '0x':
        text = text[2:]
    return re.fullmatch('[0-9a-fA-F]{40}', text) is not None


@facet('C25', bad_hash, 6000, 'every refused text', shards=4, corpus=lambda: ['', '0x', '0', '00', 'None'] + [p + 'ab' * n for n in list(range(64)) + [126, 127, 128, 129, 255, 256, 257, 512, 2048, 32768] if n != 20 for p in ('', '0x')])
def bad_hashes(c, case):
    if valid_hash(case):
        return
    if case.startswith('-'):
        res = run(['--scripthash-to-address=' + case])
    else:
        res = run(['--scripthash-to-address', case])
    check_refused(c, res, 'script hash %r' % case, shows_address)
    c.nontrivial()


@facet('C25', address_text, 6000, 'every refused text', shards=4,
       corpus=lambda: [('version', ref.address_of_hash(bytes(range(20)), v)) for v in range(256)] + [('length', ref.b58check((b'\x17' + bytes(range(1, 60)))[:n])) for n in range(50)] + [('garbage', ''), ('garbage', '0'), ('garbage', 'A' * 34)] +
       [('long', 'A' * n) for n in list(range(60, 130)) + [254, 255, 256, 257, 511, 512, 513, 1024, 4096, 65536]] + [('long', ref.b58encode(b'\x17' + bytes([7]) * n)) for n in (60, 187, 250, 255, 256, 300, 1000)])
def bad_addresses(c, case):
    how, text = case
    if text != text.rstrip() or address_hash(text) is not None:
        return
    args = ['--address-to-scripthash=' + text] if text.startswith('-') else ['--address-to-scripthash', text]
    check_refused(c, run(args), 'address %r' % text, shows_hash)
    c.nontrivial()
    c.label(how)


def mangled_hash():
    return st.tuples(script_hashes(), st.booleans(), gen.mangles()).map(lambda t: gen.mangle(('0x' if t[1] else '') + t[0][::-1].hex(), t[2]))


@facet('C25', mangled_hash, 4000, 'every refused text', shards=4)
def mangled_hashes(c, case):
    bad_hashes(c, case)


@facet('C25', mangled_address, 4000, 'every refused text', shards=4)
def mangled_addresses(c, case):
    bad_addresses(c, case)


@facet('C25', lambda: st.lists(st.sampled_from(['--create-wallet', '--address-to-scripthash', '--scripthash-to-address', '--bogus', '-x', 'A', '0x', '--', '--wallet']), max_size=4), 1200, 'at least one argument', shards=2)
def usage_errors(c, case):
    """anything that is no complete, known set of options fails with a usage message"""
    known = {'--create-wallet': 0, '--address-to-scripthash': 1, '--scripthash-to-address': 1}
    if '--create-wallet' in case and set(case) == {'--create-wallet'}:
        return
    code, out, err = run(case)
    c.true(code not in (0, None), 'arguments %r: exit status %r, output %r' % (case, code, out))
    c.true(bool(out.strip() or err.strip()), 'arguments %r: no message' % (case,))
    c.true(not shows_hash(out) and not shows_address(out), 'arguments %r: printed %r' % (case, out))
    c.nontrivial(bool(case) and bool(known))


@st.composite
def option_sets(draw):
    """several options in one call, in any order: (kind, text, hash or None) each, None for an invalid text"""
    out = []
    for kind in draw(st.permutations(['a', 's', 'w']))[:draw(gen.integers(1, 3))]:
        good = draw(st.booleans())
        if kind == 'w':
            out.append(('w', '', b''))
        elif kind == 'a':
            h = draw(script_hashes())
            out.append(('a', ref.address_of_hash(h), h) if good else ('a', draw(address_text())[1], None))
        else:
            h = draw(script_hashes())
            out.append(('s', draw(st.sampled_from(['0x' + h[::-1].hex(), h.hex()])), h) if good else ('s', draw(bad_hash()), None))
    return out


@facet('C25', option_sets, 2500, 'two options of which one has an invalid text', shards=4, fuzz=False)
def combined(c, case):
    """several options in one call: the exit status is 0 exactly if every one of them could be carried out"""
    args, bad, good = [], set(), {}
    for kind, text, h in case:
        if kind == 'w':
            args.append('--create-wallet')
            continue
        if h is None and kind == 'a' and (text != text.rstrip() or address_hash(text) is not None) or h is None and kind == 's' and valid_hash(text):
            return
        option = '--address-to-scripthash' if kind == 'a' else '--scripthash-to-address'
        args += [option + '=' + text] if text.startswith('-') else [option, text]
        if h is None:
            bad.add(kind)
        else:
            good[kind] = h
    wants_wallet = '--create-wallet' in args
    code, out, err = res = run(args)
    if bad:
        c.true(code not in (0, None), 'arguments %r: exit status %r, output %r' % (args, code, out))
        c.true(bool(out.strip() or err.strip()), 'arguments %r: no message' % (args,))
        if 'a' in bad:
            c.true(line(out, 'big endian') is None or 's' in good or 's' in bad, 'arguments %r: printed %r' % (args, out))
            c.true('neo-python format' not in out.lower(), 'arguments %r: printed %r' % (args, out))
        elif not wants_wallet:
            c.true(not shows_address(out), 'arguments %r: printed %r' % (args, out))
    else:
        if 'a' in good:
            check_to_hash(c, res, good['a'], repr(args))
        if 's' in good:
            c.true(ref.address_of_hash(good['s']) in out.split(), 'arguments %r: exit status %r, output %r' % (args, code, out))
        if wants_wallet:
            wallet(c, res)
        c.eq(code, 0, 'arguments %r: exit status (output %r %r)' % (args, out, err))
    c.nontrivial(len(case) > 1 and len(bad) == 1)
    c.label('%d bad of %d' % (len(bad), len(case)))


def wallet(c, res):
    code, out, err = res
    c.eq(code, 0, 'create-wallet: exit status (output %r %r)' % (out, err))
    w = json.loads(out[out.rindex('{'):])
    key = ref.wif_decode(w['private_key'])
    c.true(key is not None, 'create-wallet: %r is not a WIF key' % (w['private_key'],))
    c.eq(w['address'], ref.address_of_key(int.from_bytes(key, 'big')), 'create-wallet: address')
    return key


@facet('C25', lambda: st.tuples(gen.integers(2, 12), script_hashes(), gen.integers(0, 10 ** 9)), 250, 'every case', shards=4, fuzz=False)
def wallets(c, case):
    """created wallets are consistent and never repeat, whatever the state of the pseudo random generator"""
    import random
    n, h, seed = case
    keys = []
    for i in range(n):
        random.seed(seed)
        extra = ['--address-to-scripthash', ref.address_of_hash(h)] if i % 3 == 1 else []
        keys.append(wallet(c, run(['--create-wallet'] + extra)))
    c.eq(len(set(keys)), n, 'number of different created keys')
    if n > 8:
        c.true(all(len({k[i] for k in keys}) > 1 for i in range(32)), 'a byte of the created keys never changes')
    c.nontrivial()


@facet('C25', lambda: st.tuples(st.sampled_from(['hash', 'address', 'badhash', 'badaddress', 'wallet', 'none', 'usage']), script_hashes(), gen.integers(0, 19), st.booleans()), 20, 'every case', shards=8, thorough=20, fuzz=False,
       corpus=lambda: [(k, bytes(range(40, 60)), 3, b) for k in ('hash', 'address', 'badhash', 'badaddress', 'wallet', 'none', 'usage') for b in (False,)])
def as_process(c, case):
    """the tool run as a process"""
    kind, h, i, flag = case
    address = ref.address_of_hash(h)
    text = '0x' + h[::-1].hex() if flag else h.hex()
    if kind == 'hash':
        check_to_hash(c, run_process(['--address-to-scripthash', address]), h, address)
    elif kind == 'address':
        check_to_address(c, run_process(['--scripthash-to-address', text]), h, text)
    elif kind == 'badhash':
        check_refused(c, run_process(['--scripthash-to-address', text[:-1 - i]]), 'script hash %r' % text[:-1 - i], shows_address)
    elif kind == 'badaddress':
        bad = ref.b58encode(b'\x17' + h + bytes(4))
        check_refused(c, run_process(['--address-to-scripthash', bad]), 'address %r' % bad, shows_hash)
    elif kind == 'wallet':
        a, b = (wallet(c, run_process(['--create-wallet'])) for _ in range(2))
        c.true(a != b, 'the same wallet twice')
    elif kind == 'none':
        check_refused(c, run_process([]), 'no arguments', shows_hash)
    else:
        check_refused(c, run_process(['--no-such-option', address]), 'unknown option', shows_hash)
    c.nontrivial()
    c.label(kind)
