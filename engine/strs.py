"""Functions of texts: `trim`, `split`, `to_lowercase`, ...

The text a library function makes of a text t is the term ('sfn', name, t, args):
what is asked about it is decided by an SMT solver, from what is known about t
(smt.py has the encoding, which says of each function no more than is true).
Where that leaves a difference between code and contract, the difference counts
only if some actual name shows it: here are the functions themselves and the
names that are tried."""
import re
import selectors
import subprocess
import time

import conc
import smt

WS = '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


def aslower(s):
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)


def asupper(s):
    return ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in s)


def tstart(s, x):
    while x and s.startswith(x):
        s = s[len(x):]
    return s


def tend(s, x):
    while x and s.endswith(x):
        s = s[:-len(x)]
    return s


FN = {
    'trim': lambda s: s.strip(WS), 'trims': lambda s: s.lstrip(WS), 'trime': lambda s: s.rstrip(WS),
    'tsm': tstart, 'tem': tend, 'tm': lambda s, x: tend(tstart(s, x), x),
    'aslower': aslower, 'asupper': asupper, 'lower': str.lower, 'upper': str.upper,
    'skip': lambda s, n: s[n:], 'drop': lambda s, n: s[:-n] if n else s,
    'btake': lambda s, n: s.encode()[:n].decode(errors='replace'), 'bskip': lambda s, n: s.encode()[n:].decode(errors='replace'),
    'seg0': lambda s, d: s.split(d)[0], 'after': lambda s, d: s.split(d, 1)[-1],
    'rbefore': lambda s, d: s.rsplit(d, 1)[0], 'rafter': lambda s, d: s.rsplit(d, 1)[-1],
    'replacen': lambda s, a, b, n: s.replace(a, b, n), 'replall': lambda s, a, b: s.replace(a, b),
}


def int_suffix(s):
    m = INT.fullmatch(s)
    return (m.group(2) if m else '') or ''


def int_digits(s):
    m = INT.fullmatch(s)
    return str(int(m.group(1).replace('_', '').rstrip(), 0 if m.group(1)[:2] in ('0x', '0b', '0o') else 10)) if m else s


FN.update(suffix=int_suffix, digits=int_digits)


def has(x):
    """does a term speak of such a text?"""
    return isinstance(x, tuple) and (bool(x) and x[0] in ('sfn', 'segs') or any(has(y) for y in x))


def root(t):
    while isinstance(t, tuple) and t:
        if t[0] == 'sfn':
            t = t[2]
        elif t[0] in ('repl', 'segs'):
            t = t[1]
        elif t[:2] == ('tok', 'snake_case'):
            t = t[2]
        elif t[0] in ('unraw', 'disp') and len(t) == 2:
            return ('name', t[1])
        else:
            break
    return t


def value(t, v):
    """the text t, if its root is v; a name is (text, raw)"""
    if t[0] == 'sfn':
        return FN[t[1]](value(t[2], v), *t[3:])
    if t[0] == 'repl':
        return value(t[1], v).replace(t[2], t[3])
    if t[:2] == ('tok', 'snake_case'):
        return conc.Conc().camel_to_snake(value(t[2], v))
    if t[0] in ('unraw', 'disp') and len(t) == 2:
        return 'r#' + v[0] if t[0] == 'disp' and v[1] else v[0]
    return v


# ---------------------------------------------------------------- candidates --

WORDS = ['a', 'b', 'div', 'Comp', 'click', 'class', 'style', 'ref', 'aria', 'my', 'x1', 'fooBar', 'FOO', 'Abc', 'a_b', '_', '_x', 'x_', 'A', 'aB', 'ABc',
         'self', 'type', 'true', '\u00e9t\u00e9', '\u00c9t\u00e9', 'straSSe', 'a__b', 'x2y', 'Z9', 'undelegated', 'data', 'index', 'on', 'href', 'svg']
TEXTS = ['', ' ', '  ', ' a', 'a ', ' a b ', 'a  b', '\t', 'a.b', 'a b', '--x', 'A B', 'a:b', 'a\nb', '{a}', '"', 'a/b:c', ' A']


def consts(facts, terms):
    cs, ns = [], []

    def walk(x):
        if isinstance(x, str) and 0 < len(x) <= 40:
            cs.append(x)
        elif isinstance(x, frozenset):
            cs.extend(sorted(x)[:6])
    for a, _ in facts:
        if a[0] in ('streq', 'cont', 'sw', 'ew', 'inset', 'chr', 'cge'):
            walk(a[2])
        elif a[0] in ('blen', 'bnd'):
            ns.append(a[2])
    for t in terms:
        while isinstance(t, tuple) and t and t[0] in ('sfn', 'repl'):
            for x in t[3 if t[0] == 'sfn' else 2:]:
                (ns if isinstance(x, int) else cs).append(x)
            t = t[2] if t[0] == 'sfn' else t[1]
    return list(dict.fromkeys(cs)), list(dict.fromkeys(n for n in ns if n < 200))


def sort(r):
    """what texts a root can be"""
    if r == ('?',):
        return None
    if r[0] == 'name':
        return 'ident'
    if r[0] == 'valid':
        return 'word'
    if r[0] == 'fld' and r[3] == 'repr':
        return 'kebab'
    if r[0] == 'litval':
        return 'text'
    if r[0] == 'display':       # of an integer literal
        return 'int'
    if r == ('arg', 0):     # of TagKind::from: the name of a KebabIdent
        return 'kebab'
    return None


IDENT = re.compile(r'[^\W\d]\w*|_\w*')
KEBAB = re.compile(r'[-\w]*')


INTS = ['0', '1', '7', '42', '00', '007', '10', '100', '1_000', '1_', '0x1f', '0xFF', '0b11', '0o17', '1u8', '1_u8', '2xl', '0i32', '0xffu8', '9' * 25, '2b', '1usize', '5a_b', '0_0', '1A', '3C']
INT = re.compile(r'(0x[0-9a-fA-F_]*[0-9a-fA-F][0-9a-fA-F_]*|0b[01_]*[01][01_]*|0o[0-7_]*[0-7][0-7_]*|[0-9][0-9_]*)([^\W\d_][\w]*)?')


def int_candidates(cs, ns):
    out = list(INTS)
    for c in cs:
        out += [c, '1' + c, '0' + c, '1_' + c, '12' + c + 'x', c + '1', c + c, c + '0', c + '10', '1' + c + '1', '10' + c, c * 3 + '1', c + 'u8']
    for n in ns:
        out += [('1234567890' * 21)[:k] for k in (n - 1, n, n + 1) if k > 0] + [('0' * 200)[:max(n, 1)] + '1']
    # a suffix that makes it a float, or that does not lex, is none
    return [s for s in dict.fromkeys(out) if INT.fullmatch(s) and not re.fullmatch(r'[\d_]+(e[\d_].*|f32|f64)', s, re.I)]


def candidates(kind, cs, ns):
    if kind == 'int':
        return int_candidates(cs, ns)
    words = list(dict.fromkeys(WORDS + cs))
    out = list(words)
    for c in cs:
        w = c.strip('-')
        out += [c + 'x', 'x' + c, c + c, 'x' + c + 'y', c.upper(), c.lower(), c.capitalize(), c + 'X', c + 'xY', c + '-x', c + '-X', 'x-' + c, c + '1', c[:-1], c[1:],
                'X' + c, w, w + '-x', w + 'x', w + 'X', w + '-xY-z', c + 'X' + c, c + 'x' + c + 'y' + c + 'z', c * 3, c * 5, c + 'a b', c + ' ', ' ' + c]
    small = [c for c in cs if len(c) <= 3 and not c.isalnum()]
    out += [x for c in small for a in words for x in (c + a, a + c, c + a + c, c + a + '-x', 'x-' + a + c, a + c + 'x', c + c + a, a + c + c)]
    out += [a + b for a in cs[:12] for b in cs[:12]]
    out += ['%s-%s' % (a, b) for a in words[:14] for b in words[:14]]
    out += ['-'.join(words[:n]) for n in (3, 4, 5, 6, 9)] + ['-x', '--x', 'x-', 'x--', '-', '--', '-X-', 'x--y', '--a-b', 'a-1', 'a-2b']
    for n in ns:
        for k in (n - 1, n, n + 1, n + 5):
            for base in ('abcdefghij', 'aBcDefGhij', 'Abcdefghij', 'a-bcd-efgh', 'aB-cd-eFgh', 'A_bc_deFgh', '\u00c9a\u00e9Bc1'):
                for c in [''] + cs[:8]:
                    out.append((c + base * 21)[:max(k, 1)])
                    out.append(((base * 21)[:max(k - len(c), 1)] + c))
    if kind == 'text':
        out += TEXTS
        out += [' %s' % c for c in words[:20]] + ['%s ' % c for c in words[:20]] + ['%s b' % c for c in words[:20]]
    out = list(dict.fromkeys(out))
    if kind == 'kebab':
        return [s for s in out if s and KEBAB.fullmatch(s) and not s[0].isdigit()]
    if kind in ('word', 'ident'):
        return [s for s in out if s and IDENT.fullmatch(s)]
    return out


CAND = {}


def pool(r, facts, terms):
    kind = sort(r)
    if kind is None:
        return None
    cs, ns = consts(facts, terms)
    k = (kind, tuple(cs), tuple(ns))
    if k not in CAND:
        xs = candidates(kind, cs, ns)
        if kind == 'ident':
            xs = [(s, raw) for s in xs for raw in (False, True) if raw is False or s not in ('_', 'self', 'Self', 'super', 'crate')]
        CAND[k] = xs
    return CAND[k]


def cursor_ok(kind, v):
    d = 'r#' + v[0] if v[1] else v[0]
    if kind == 'IdentAny':
        return True
    if kind == 'Ident':
        return d not in conc.STRICT_KW
    if kind.startswith('kw:'):
        return d == kind[3:]
    if kind == 'Lit':
        return d in ('true', 'false')
    return False


def facts_of(w, r):
    """the facts about a root that can be evaluated on a text, and whether
    these are all of them"""
    import sx
    out, whole = [], True
    for a, v in w.facts.items():
        if len(a) < 2:
            continue
        t = a[1]
        if a[0] in ('streq', 'cont', 'sw', 'ew', 'inset', 'ne', 'blen', 'bnd', 'teq'):
            if root(t) == r:
                out.append((a, v, t))
        elif a[0] == 'raw':
            if ('name', t) == r:
                out.append((a, v, t))
        elif a[0] == 'is':
            if ('name', ('id', a[2])) == r:
                out.append((a, v, a[2]))
        elif isinstance(t, tuple) and t and t[0] == 'c0' and root(t[1]) == r:
            out.append((a, v, t[1]))
            whole = whole and (a[0] in ('chr', 'cge') or a[0] in sx.CHAR_PREDS)
        elif isinstance(t, tuple) and t and t[0] == 'segs' and root(t) == r:
            out.append((a, v, t))
            whole = whole and a[0] == 'lenge'
        elif isinstance(t, tuple) and len(t) > 1 and t[0] != 'name' and root(part(t)) == r:
            whole = False
    if any(isinstance(S, tuple) and S and S[0] in ('chars', 'segs') and root(S[1]) == r for S in w.anys):
        whole = False
    return out, whole


def part(t):
    """the text a term about its characters or pieces is about"""
    while isinstance(t, tuple) and len(t) > 1 and t[0] in ('chars', 'c0', 'bv', 'e0', 'el', 'ei', 'sub', 'rev'):
        t = t[1]
    return t


def holds(fact, v):
    import sx
    a, b, t = fact
    if a[0] == 'lenge':
        return (value(t[1], v).count(t[2]) + 1 >= a[2]) == b
    if a[0] == 'raw':
        return v[1] == b
    if a[0] == 'is':
        return cursor_ok(a[1], v) == b
    s = value(t, v)
    if a[0] == 'teq':
        return (s == value(a[2], v)) == b
    if isinstance(a[1], tuple) and a[1][0] == 'c0':
        return bool(s) and sx.char_pred(a, s[0]) in (b, None)
    return sx.str_pred(a, s) in (b, None)


def models(w, r, terms=(), limit=None):
    """actual texts for a root that agree with the facts; None: it cannot be told"""
    fs, whole = facts_of(w, r)
    if not whole:
        return None
    xs = pool(r, [(a, v) for a, v, _ in fs], list(terms) + [t for _, _, t in fs])
    if xs is None:
        return None
    out = []
    for v in xs:
        if all(holds(f, v) for f in fs):
            out.append(v)
            if limit and len(out) >= limit:
                break
    return out


def roots(w, terms=(), every=False):
    """the roots of the texts some function is applied to"""
    rs = {}
    for a in w.facts:
        if len(a) > 1 and a[0] in ('streq', 'cont', 'sw', 'ew', 'inset', 'ne', 'blen', 'bnd', 'teq', 'chr', 'cge') or len(a) > 1 and isinstance(a[1], tuple) and \
                a[1] and a[1][0] == 'c0':
            t = a[1][1] if isinstance(a[1], tuple) and a[1] and a[1][0] == 'c0' else a[1]
            if every or has(t) or a[0] in ('blen', 'bnd', 'teq'):
                rs[root(t)] = None
    for t in terms:
        rs[root(t)] = None
    return [r for r in rs if isinstance(r, tuple)]


def shown(v):
    return v if isinstance(v, str) else ('r#' if v[1] else '') + v[0]


def names(w):
    """texts a failing path is about, to be tried in actual inputs"""
    out = []
    for r in roots(w, every=True):
        ms = models(w, r, limit=6)
        out += [shown(v) for v in ms or ()]
    return list(dict.fromkeys(out))[:24]


# -------------------------------------------------------------------- solver --

ASKED = {}


SOLVERS = (['z3', '-in', '-T:4'], ['cvc5', '--strings-exp', '--lang', 'smt2', '--tlimit=4000', '-'])


def z3(text):
    """z3 and cvc5, whichever knows first"""
    if text not in ASKED:
        ASKED[text] = race(text)
    return ASKED[text]


def race(text):
    ps = []
    for cmd in SOLVERS:
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            ps.append(p)
            p.stdin.write(text)
            p.stdin.close()
        except OSError:
            pass
    r, end = 'unknown', time.time() + 6
    with selectors.DefaultSelector() as sel:
        for p in ps:
            sel.register(p.stdout, selectors.EVENT_READ, p)
        while sel.get_map() and r == 'unknown' and time.time() < end:
            for k, _ in sel.select(max(0, end - time.time())):
                m = re.match(r'(sat|unsat)\b', k.data.stdout.read())
                sel.unregister(k.fileobj)
                if m:
                    r = m.group(1)
                    break
    for p in ps:
        p.kill()
        p.stdout.close()
        p.wait()
    return r


def usable(a):
    return a[0] != 'any' or len(a) == 3 and a[2] in ('nonempty', 'some')


def unsat(facts, extra=None):
    """are the facts contradictory?  `extra`: a further condition, made from
    the encoder"""
    import symspec
    e = smt.Enc(symspec.PROGRESS)
    fs = [(e.atom(a), b) for a, b in facts if usable(a)]
    g = extra(e) if extra else None
    text = '\n'.join(e.lines + ['(assert %s)' % (f if b else '(not %s)' % f) for f, b in fs] + ([g] if g else []))
    return z3('(set-logic ALL)\n' + text + '\n(check-sat)\n') == 'unsat'


def theory(w, atom):
    """the value of an atom about such a text, from all that is known about its root"""
    r = root(atom[1])
    fs = [(a, v) for a, v, _ in facts_of(w, r)[0]]
    if unsat(fs + [(atom, True)]):
        return False
    if unsat(fs + [(atom, False)]):
        return True
    return None


def related(w, atom):
    t = atom[1][1] if isinstance(atom[1], tuple) and atom[1] and atom[1][0] == 'c0' else atom[1]
    return tuple((a, v) for a, v, _ in facts_of(w, root(t))[0])


def involved(w, atom):
    """does a decision involve functions of texts?"""
    t = atom[1]
    if isinstance(t, tuple) and t and t[0] == 'c0':
        t = t[1]
    if not isinstance(t, tuple):
        return False
    return atom[0] == 'teq' or has(t) or bool(w.sfn) and root(t) in w.sfn


def compare(w, a, b):
    """are two texts, as lists of constants and terms, the same on this path?
    True, or a text that tells them apart, or None: not known"""
    ts = [x for x in a + b if not isinstance(x, str)]
    rs = list(dict.fromkeys(root(t) for t in ts))

    def differ(e):
        return '(assert (not (= %s %s)))' % (together(e, a), together(e, b))
    fs = [(x, v) for r in rs for x, v, _ in facts_of(w, r)[0]]
    if unsat(fs, differ):
        return True
    if len(rs) != 1:
        return None
    ms = models(w, rs[0], ts)
    for v in ms or ():
        if joined(a, v) != joined(b, v):
            return shown(v)
    return None


def same(w, t, u):
    """is the text t the text u on this path?"""
    r = root(t)
    fs = [(a, v) for a, v, _ in facts_of(w, r)[0]]
    return unsat(fs, lambda e: '(assert (not (= %s %s)))' % (e.text(t), e.text(u)))


def is_ident(w, xs):
    """is a text, a list of constants and terms, an identifier on this path?
    True, or one that is not, or None"""
    ts = [x for x in xs if not isinstance(x, str)]
    rs = list(dict.fromkeys(root(t) for t in ts))
    fs = [(x, v) for r in rs for x, v, _ in facts_of(w, r)[0]]
    if unsat(fs, lambda e: '(assert (not (str.in_re %s %s)))' % (together(e, xs), smt.IDENT)):
        return True
    for v in models(w, rs[0], ts) or () if len(rs) == 1 else ():
        s = joined(xs, v)
        if not IDENT.fullmatch(s):
            return s, shown(v)
    return None


def together(e, xs):
    return '(str.++ "" %s)' % ' '.join(smt.q(x) if isinstance(x, str) else e.text(x) for x in xs)


def joined(xs, v):
    return ''.join(x if isinstance(x, str) else value(x, v) for x in xs)


def possible(w):
    """is there an actual text for every root some function is applied to?
    (True, None: not known)"""
    for r in list(dict.fromkeys(roots(w) + sorted(w.sfn, key=repr))):
        if not models(w, r, limit=1):
            return None
    return True
