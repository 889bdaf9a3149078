"""What smt.py says of each function of texts is true of actual texts: for
every function, arguments and text tried, the axioms with the actual text and
the actual result are satisfiable (and, for the cased forms, conditions on the
result have the value they have)."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import smt
import strs
import sx
import symspec

TEXTS = list(dict.fromkeys(strs.WORDS + strs.TEXTS + ['aria-x', 'Aria-X', '-', '--', '-x-', 'x--y', 'a-b-c', 'a---b', '_a_', '__', '\u0130x', '\u212a-k', '\u00df', 'x\u00e9-\u00c9',
                                                      'r#a', 'aria-aria-', 'KiK', 'i\u0130', '\u3000a\u2003', 'a1-2b', 'AB-cd_EF']))
ARGS = {'trim': [()], 'trims': [()], 'trime': [()], 'aslower': [()], 'asupper': [()], 'lower': [()], 'upper': [()],
        'tsm': [('-',), ('_',), ('aria-',), ('a',)], 'tem': [('-',), ('_',), ('-x',)], 'tm': [('-',), ('_',)],
        'skip': [(0,), (1,), (5,)], 'drop': [(1,), (2,)], 'btake': [(1,), (2,), (3,)], 'bskip': [(1,), (2,), (3,)],
        'seg0': [('-',), ('--',), ('a',)], 'after': [('-',), ('--',), ('a',)], 'rbefore': [('-',), ('_',)], 'rafter': [('-',), ('_',)],
        'replacen': [('-', '_', 1), ('-', '_', 4), ('a', '', 2)], 'replall': [('--', '_'), ('aria-', 'x'), ('a', 'aa')], 'suffix': [()], 'digits': [()]}


def skipped(f, args, s):
    """not asked of such a text: the code has found that it can be applied"""
    if f in ('btake', 'bskip'):
        return not sx.boundary(s, args[0])
    if f in ('skip', 'drop'):
        return len(s) < args[0]
    return False


def main():
    out, want = ['(set-logic ALL)'], []
    t0 = ('arg', 0)
    for f, xs in ARGS.items():
        for args in xs:
            for s in TEXTS if f not in ('suffix', 'digits') else strs.int_candidates(['2', 'x', '10'], [3, 20]):
                if skipped(f, args, s):
                    continue
                t = ('sfn', f, t0) + args
                e = smt.Enc(symspec.PROGRESS)
                n = e.text(t)
                r = strs.value(t, s)
                conds = [('cont', t, '-'), ('sw', t, 'aria-'), ('ew', t, 'k'), ('streq', t, 'ki'), ('sw', t, 'i'), ('cont', t, 'k'), ('ne', t)]
                fs = [(e.atom(a), sx.str_pred(a, r)) for a in conds]
                out.append('(push)')
                out += e.lines
                out.append('(assert (and (= %s %s) (= %s %s)))' % (e.text(t0), smt.q(s), n, smt.q(r)))
                out += ['(assert (= %s %s))' % (x, 'true' if v else 'false') for x, v in fs]
                out.append('(check-sat)\n(pop)')
                want.append((f, args, s, r))
    p = subprocess.run(['z3', '-in', '-t:3000'], input='\n'.join(out), capture_output=True, text=True)
    got = p.stdout.split()
    bad = [(w, g) for w, g in zip(want, got) if g == 'unsat' or g.startswith('(error')]
    print(len(want), len(got), 'sat', got.count('sat'), 'unknown', got.count('unknown'), 'bad', bad[:10])
    return bool(bad) or len(want) != len(got)


if __name__ == '__main__':
    sys.exit(main())
