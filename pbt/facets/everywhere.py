"""The executable statements of the other properties once more: in other processes (C31), while other threads run (C29)."""
from hypothesis import strategies as st

from pbt import core, gen
from pbt.core import CheckFailure, HarnessError, facet
from pbt.facets import processes
from pbt.facets.threads import Turns

KNOWN = ('KF1', 'KF2')
# too slow, with processes of their own, or concerned with chance
NOWHERE = {'nep2_real_kdf', 'as_process', 'large_data', 'huge_varbytes', 'large_messages', 'first_in_process', 'random_values', 'trim_large', 'long_lists', 'random_keys', 'fresh_integers', 'wallets', 'header_hashes',
           'failing_header_list', 'long_bytes', 'large_varbytes', 'cross_verification', 'crafted_numbers', 'fitted_signatures'}
# replace or set something all threads share
NO_THREADS = {'address_version', 'address_again', 'random_integers', 'textbook', 'textbook_two', 'big_group', 'key_pair', 'fitted_numbers', 'derived_encodings', 'decompress_any_curve', 'sqrt_cq', 'unreduced_textbook'}


def statements(without, props):
    return {'%s %s' % (f.prop, f.name): f for f in core.REGISTRY if f.prop not in without.split() and f.name not in props and f.strategy is not None}


def elsewhere():
    return statements('C29 C31', NOWHERE)


def threaded():
    return statements('C19 C22 C23 C25 C27 C29 C31', NOWHERE | NO_THREADS)


TABLE = {}


def verdict(case):
    """'held', or what fails"""
    name, case = case
    if not TABLE:
        TABLE.update(elsewhere())
    try:
        TABLE[name].body(core.Ctx(KNOWN), case)
    except Exception as e:
        if not core.is_violation(e):
            return 'not judged'
        return core.describe(e)[:1500]
    return 'held'


def some(table):
    made = {n: f.strategy() for n, f in table.items()}
    return st.sampled_from(sorted(table)).flatmap(lambda n: st.tuples(st.just(n), made[n]))


@facet('C31', lambda: st.lists(some(elsewhere()), min_size=1, max_size=4), 1600, 'a statement about a call', shards=8, thorough=15, seq=0, fuzz=False)
def verdicts(c, cases):
    """statements of the other properties about single calls, judged here and in processes with other settings of the interpreter"""
    here = [verdict(x) for x in cases]
    for (flags, env), there in zip(processes.CONFIGS, processes.ask('verdicts', cases)):
        for case, a, b in zip(cases, here, there):
            if 'not judged' in (a, b):
                continue
            if a == 'held' != b:
                c.fail('%s holds here, in a process with %s %s: %s (case %s)' % (case[0], ' '.join(flags), env, b, core.short(case[1], 400)))
            if b == 'held' != a:
                c.fail('%s holds in a process with %s %s, here: %s (case %s)' % (case[0], ' '.join(flags), env, a, core.short(case[1], 400)))
    for (name, _), a in zip(cases, here):
        c.label(name if a == 'held' else name + ' ' + a[:10])
    c.nontrivial('held' in here)


def pairs():
    table = threaded()
    made = {n: f.strategy() for n, f in table.items()}
    same = st.sampled_from(sorted(table)).flatmap(lambda n: st.tuples(st.tuples(st.just(n), made[n]), st.tuples(st.just(n), made[n])))
    return st.tuples(st.one_of(same, same, st.tuples(some(table), some(table))), gen.integers(0, 10 ** 4))


@facet('C29', pairs, 2000, 'a change of threads within a call', shards=8, thorough=20, seq=0, fuzz=False)
def statements_together(c, case):
    """a statement of another property is judged in one thread, which is stopped; another one is judged in a second thread, then the first goes on"""
    (one, two), offset = case
    if [verdict(one), verdict(two)] != ['held', 'held']:
        c.label('not judged')
        return
    table = threaded()
    fns = [lambda x=x: table[x[0]].body(core.Ctx(KNOWN), x[1]) for x in (one, two)]
    alone = Turns(fns[:1], [(1 << 40, 0)], False)
    alone.run()
    n = alone.steps
    if not n:
        return
    other = Turns(fns[1:], [(1 << 40, 0)], False)
    other.run()
    step = max(1, n // min(12, max(1, 40000 // (n + other.steps))))
    for at in range(1 + offset % step, n + 1, step):
        t = Turns(fns, [(at, 0), (1 << 40, 1)], False)
        try:
            t.run()
        except Exception as e:
            if not core.is_violation(e):
                raise
            c.fail('%s %s was stopped at step %d (of %d), %s %s ran, then it went on: %s' % (one[0], core.short(one[1], 300), at, n, two[0], core.short(two[1], 300), core.describe(e)[:1500]))
        if t.switches:
            c.nontrivial()
    for x in (one, two):
        c.eq(verdict(x), 'held', '%s after the threads' % x[0])
    c.label(one[0] if one[0] == two[0] else 'different')
