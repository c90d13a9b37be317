"""Answers batches of calls in a process of its own (C31): python -m pbt.worker, one batch per line."""
import ast
import os
import sys


def main():
    out = os.fdopen(os.dup(1), 'w', encoding='ascii')
    inp = os.fdopen(os.dup(0), 'r', encoding='ascii')  # exit() closes sys.stdin
    os.dup2(2, 1)
    prec = os.environ.get('PBT_DECIMAL')
    from pbt import run
    run.import_code_under_test()
    run.import_hypothesis()
    run.load_facets(None)
    from pbt.facets import everywhere, processes
    if prec:
        import decimal
        decimal.getcontext().prec = int(prec)
        decimal.getcontext().rounding = decimal.ROUND_UP
    out.write('ready\n')
    out.flush()
    for line in inp:
        number, what, batch = line.split(' ', 2)
        try:
            batch = ast.literal_eval(batch)
            ans = processes.answers(batch) if what == 'answers' else [everywhere.verdict(x) for x in batch]
        except BaseException as e:
            ans = 'worker failed: %r' % e
        out.write('%s %s\n' % (number, ascii(ans)))
        out.flush()


if __name__ == '__main__':
    main()
