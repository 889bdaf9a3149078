"""Do the lemmas notice contracts that are wrong?  Each entry makes spec.py wrong
in one place; lemmas.py, run on a copy, has to refuse every one of them.

    python3 lemmas_test.py MIR"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M=[("::leptos::prelude::View::new(($xs))","leptos::prelude::View::new(($xs))"),
("        only('Spread', lambda s: S.q('.add_any_attr($x)', x=S.get(s, None, 'rest'))),\n",""),
("S.q('.prop($k, $v)'","S.q('.prop($k, $v, $v)'"),
("        no_modifier(S, d)\n        return S.q('.directive","        return S.q('.directive"),
("        sel('Class', lambda k: S.q('.class(($n, true))', n=colored(S, k))),\n        sel('Id', lambda k: S.q('.id($n)', n=colored(S, k))),","        sel('Id', lambda k: S.q('.id($n)', n=colored(S, k))),\n        sel('Class', lambda k: S.q('.class(($n, true))', n=colored(S, k))),"),
("    if S.opt(S.get(e, None, 'children_args')) is not None:\n        S.err()\n",""),
("            return 'rest', c2, (S.unit(r),)\n        S.err()","            return 'rest', c2, (S.seq(),)\n        S.err()"),
("    return S.mk('SpreadAttr', None, rest=S.rest(inner)), c2","    return S.mk('SpreadAttr', None, rest=S.seq()), c2"),
("    ch, rest = S.call('Children_parse', inner)\n    if not S.eof(rest):\n        S.fail()","    ch, rest = S.call('Children_parse', inner)"),
("m = S.raw_ident(S.camel_to_snake(S.unraw_str(name)))","m = S.raw_ident(S.string('slot'))"),
("            return S.q('.$m($v)', m=m, v=S.fm(vals, lambda v: v))","            return S.q('.$m()', m=m)"),
("        return S.q('$x,', x=p)\n","        return S.q('$x, $x,', x=p)\n"),
("            return 'rest', c, (S.unit(t),)","            return 'rest', c, (S.seq(),)"),
("    return S.cat(attrs, ch, sl), anys","    return S.cat(attrs, sl, ch), anys"),
("tokens=toks, prefixes=S.some(pre)","tokens=toks, prefixes=S.none()"),
("        return S.q('let $i = $i.clone();', i=i)","        return S.q('')"),
("        rep = S.cat(rep, S.display(lit))","        pass"),
("::std::format!($t)","format!($t)"),
]


def main():
    mir = os.path.abspath(sys.argv[1])
    missed = 0
    with tempfile.TemporaryDirectory() as d:
        e = d + '/engine'
        shutil.copytree(HERE, e)
        src = open(e + '/spec.py').read()
        for a, b in M:
            assert a in src, a
            open(e + '/spec.py', 'w').write(src.replace(a, b, 1))
            r = subprocess.run([sys.executable, 'lemmas.py', mir], capture_output=True, text=True, cwd=e)
            bad = [l for l in r.stdout.splitlines() if l.strip() and not l.rstrip()[-1].isdigit()]
            print('noticed' if bad or r.returncode else 'MISSED ', (b or a).strip()[:90].replace('\n', ' '))
            missed += not (bad or r.returncode)
    return missed


if __name__ == '__main__':
    sys.exit(main())
