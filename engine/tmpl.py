"""Token templates: `q("::leptos::x($v)")` -> a nested list of
('i', name) ('p', op) ('l', text) ('g', delim, items) ('$', name)."""
import re
from functools import lru_cache

OPS = ['...', '..=', '<<=', '>>=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '..',
       '+=', '-=', '*=', '/=', '<<', '>>']
CLOSE = {'(': ')', '[': ']', '{': '}'}
TOK = re.compile(r'\s*(?:(\$\w+)|((?:r#)?[A-Za-z_]\w*)|("(?:[^"\\]|\\.)*"|\d\w*)|([(\[{])|([)\]}])|(%s|.))'
                 % '|'.join(re.escape(o) for o in OPS))


@lru_cache(None)
def parse(s):
    stack, cur, pos = [], [], 0
    s = s.rstrip()
    while pos < len(s):
        m = TOK.match(s, pos)
        pos = m.end()
        if m.group(1):
            cur.append(('$', m.group(1)[1:]))
        elif m.group(2):
            cur.append(('i', m.group(2)))
        elif m.group(3):
            cur.append(('l', m.group(3)))
        elif m.group(4):
            stack.append((m.group(4), cur))
            cur = []
        elif m.group(5):
            d, prev = stack.pop()
            assert CLOSE[d] == m.group(5), s
            prev.append(('g', d, tuple(cur)))
            cur = prev
        else:
            cur.append(('p', m.group(6)))
    assert not stack, s
    return tuple(cur)
