"""The functions of texts in strs.py are those of Rust's std, on actual texts:
writes a Rust program that compares, compiles and runs it in a scratch directory."""
import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import strs_test as T
import strs


def q(s):
    return '"' + ''.join('\\u{%x}' % ord(c) for c in s) + '"'


CODE = {'trim': 's.trim().to_string()', 'trims': 's.trim_start().to_string()', 'trime': 's.trim_end().to_string()',
        'aslower': 's.to_ascii_lowercase()', 'asupper': 's.to_ascii_uppercase()', 'lower': 's.to_lowercase()', 'upper': 's.to_uppercase()',
        'tsm': 's.trim_start_matches(%s).to_string()', 'tem': 's.trim_end_matches(%s).to_string()', 'tm': "s.trim_matches(%s.chars().next().unwrap()).to_string()",
        'skip': 's.chars().skip(%s).collect::<String>()', 'drop': 's.chars().take(s.chars().count() - %s).collect::<String>()',
        'btake': 's[..%s].to_string()', 'bskip': 's[%s..].to_string()',
        'seg0': 's.split(%s).next().unwrap().to_string()', 'after': 's.split_once(%s).map_or(s, |x| x.1).to_string()',
        'rbefore': 's.rsplit_once(%s).map_or(s, |x| x.0).to_string()', 'rafter': 's.rsplit(%s).next().unwrap().to_string()',
        'replacen': 's.replacen(%s, %s, %s)', 'replall': 's.replace(%s, %s)'}


def main():
    body, n = [], 0
    for f, xs in T.ARGS.items():
        for args in xs:
            code = CODE[f] % tuple(q(a) if isinstance(a, str) else a for a in args)
            cs = [(s, strs.value(('sfn', f, ('arg', 0)) + args, s)) for s in T.TEXTS if not T.skipped(f, args, s)]
            n += len(cs)
            body.append('for (s, r) in [%s] { let g = %s; if g != r { println!("%s {:?} {:?} {:?}", s, g, r); bad += 1; } }' % (
                ', '.join('(%s, %s)' % (q(s), q(r)) for s, r in cs), code, f))
    with tempfile.TemporaryDirectory() as d:
        open(d + '/m.rs', 'w').write('fn main() { let mut bad = 0; %s std::process::exit(if bad > 0 { 1 } else { 0 }) }' % '\n'.join(body))
        subprocess.run(['rustc', '-o', d + '/m', d + '/m.rs'], check=True)
        r = subprocess.run([d + '/m'], capture_output=True, text=True)
    print(n, 'texts', r.stdout[:2000] or 'all as in std')
    return r.returncode


if __name__ == '__main__':
    sys.exit(main())
