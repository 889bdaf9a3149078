"""Concrete back end of the contracts: runs `spec.mview` on a real token tree
(as dumped by the replay harness) and compares with the real expansion."""
import re
import spec
import tmpl
import tables


class Fail(Exception):
    pass


class Abort(Exception):
    pass


class Unknown(Exception):
    """the concrete back end does not model this input"""


class V:
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, f


ANY = V('?', '?', {})
STRICT_KW = set('''as break const continue crate else enum extern false fn for if impl in let loop
match mod move mut pub ref return self Self static struct super trait true type unsafe use where
while async await dyn abstract become box do final macro override priv typeof unsized virtual
yield try _'''.split())


def str_value(t):
    """the value of a string literal token, None if not a string literal"""
    m = re.fullmatch(r'r(#*)"(.*)"\1', t, re.S)
    if m:
        return m.group(2)
    if not (t.startswith('"') and t.endswith('"') and len(t) >= 2):
        return None
    out, i, s = [], 0, t[1:-1]
    simple = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', "'": "'", '"': '"'}
    while i < len(s):
        if s[i] != '\\':
            out.append(s[i])
            i += 1
            continue
        e = s[i + 1]
        if e in simple:
            out.append(simple[e])
            i += 2
        elif e == 'x':
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        elif e == 'u':
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j].replace('_', ''), 16)))
            i = j + 1
        elif e == '\n':
            i += 2
            while i < len(s) and s[i] in ' \n\t\r':
                i += 1
        else:
            raise Unknown(t)
    return ''.join(out)


def is_int_lit(t):
    if not re.match(r'\d', t):
        return False
    if re.match(r'0[xob]', t):
        return True
    m = re.fullmatch(r'[\d_]+([A-Za-z_]\w*)?', t)
    return bool(m) and not (m.group(1) or '').lower().startswith('e') and \
        m.group(1) not in ('f32', 'f64', 'f16', 'f128')


def generics(ts):
    """are these type arguments, of the simple forms known here?"""
    n = len(ts)

    def p(i, ch):
        return i < n and ts[i][0] == 'p' and ts[i][1] == ch

    def sep(i):
        return p(i, ':') and ts[i][2] == 1 and p(i + 1, ':')

    def args(i):
        if not p(i, '<'):
            return -1
        i += 1
        while not p(i, '>'):
            i = arg(i)
            if i < 0:
                return -1
            if p(i, ','):
                i += 1
            elif not p(i, '>'):
                return -1
        return i + 1

    def ident(i):
        return i < n and ts[i][0] == 'i' and ts[i][1] not in STRICT_KW

    def arg(i):
        if p(i, "'"):
            return i + 2 if ident(i + 1) else -1
        if i < n and ts[i][0] == 'l' and ts[i][1].isdigit():
            return i + 1
        return ty(i)

    def ty(i):
        if p(i, '&') and not p(i + 1, '&'):
            i += 1
            if p(i, "'"):
                if not ident(i + 1):
                    return -1
                i += 2
            return ty(i)
        if i < n and ts[i][0] == 'i' and ts[i][1] == '_':
            return i + 1
        if sep(i):
            i += 2
        while ident(i):
            i += 1
            if p(i, '<'):
                i = args(i)
                if i < 0:
                    return -1
            if sep(i):
                i += 2
                if p(i, '<'):
                    i = args(i)
                    if i < 0 or not (sep(i)):
                        return i
                    i += 2
                continue
            return i
        return -1

    return args(0) == n


class ConcS:
    def __init__(self):
        self.reported = False
        self.stack = []
        self.depth = 0
        self.diag = set()

    # --- tokens; an output token is (kind, ..., frozenset labels)
    def lab(self):
        return self.stack[-1] if self.stack else frozenset()

    def push(self, props):
        self.stack.append(frozenset(props))

    def pop(self):
        self.stack.pop()

    # --- cursors: (tokens, i)
    def _tok(self, c):
        ts, i = c
        return ts[i] if i < len(ts) else None

    def peek(self, c, k):
        ts, i = c
        if i >= len(ts):
            return False
        t = ts[i]
        kind = t[0]
        if kind == 'g' and t[1] == 'n':
            raise Unknown('None group')
        if k == 'TokenTree':
            return True
        if k in ('Brace', 'Bracket', 'Paren'):
            return kind == 'g' and t[1] == {'Brace': '{', 'Bracket': '[', 'Paren': '('}[k]
        if k == 'IdentAny':
            return kind == 'i'
        if k == 'Ident':
            return kind == 'i' and t[1] not in STRICT_KW
        if k.startswith('kw:'):
            return kind == 'i' and t[1] == k[3:]
        if k == 'Lit':
            return self._lit(c) is not None
        if k == 'LitStr':
            l = self._lit(c)
            return l is not None and str_value(l[1]) is not None
        if k == 'LitInt':
            l = self._lit(c)
            return l is not None and is_int_lit(l[1].lstrip('-'))
        # punctuation
        for n, ch in enumerate(k):
            if i + n >= len(ts):
                return False
            p = ts[i + n]
            if p[0] != 'p' or p[1] != ch:
                return False
            if n < len(k) - 1 and not p[2]:
                return False
        return True

    def _lit(self, c):
        ts, i = c
        t = ts[i] if i < len(ts) else None
        if t is None:
            return None
        if t[0] == 'l':
            return t
        if t[0] == 'i' and t[1] in ('true', 'false'):
            return t
        if t[0] == 'p' and t[1] == '-' and i + 1 < len(ts) and ts[i + 1][0] == 'l' and \
                re.match(r'\d', ts[i + 1][1]):
            return ['l', '-' + ts[i + 1][1]]
        return None

    def peek2(self, c, k):
        ts, i = c
        if i >= len(ts):
            return False
        if ts[i][0] == 'g' and ts[i][1] == 'n':
            raise Unknown('None group')
        n = 1
        if ts[i][0] == 'p' and ts[i][1] == "'" and i + 1 < len(ts) and ts[i + 1][0] == 'i':
            n = 2
        return self.peek((ts, i + n), k)

    def eof(self, c):
        return c[1] >= len(c[0])

    def eat(self, c, k):
        ts, i = c
        if k == 'Path':
            return self.path(c)
        if not self.peek(c, k):
            raise Fail()
        if k in ('Lit', 'LitInt', 'LitStr'):
            l = self._lit(c)
            n = 2 if ts[i][0] == 'p' else 1
            return l, (ts, i + n)
        if k in ('IdentAny', 'Ident') or k.startswith('kw:'):
            return ts[i][1], (ts, i + 1)
        if k == 'TokenTree':
            return ts[i], (ts, i + 1)
        return None, (ts, i + len(k))

    def enter(self, c, d):
        if not self.peek(c, d):
            raise Fail()
        ts, i = c
        return (ts[i][2], 0), (ts, i + 1)

    def group_tokens(self, c, d):
        inner, c = self.enter(c, d)
        return self.rest(inner), c

    def rest(self, c):
        self.push(('C11',))
        try:
            return [self.mark(t) for t in c[0][c[1]:]]
        finally:
            self.pop()

    def consume(self, c):
        return None, (c[0], len(c[0]))

    def path(self, c):
        """`Path::parse`, on the simple paths the generator makes"""
        ts, i = c
        start = i
        segs = []
        out = []

        def colon2(i):
            return self.peek((ts, i), '::')
        lead = False
        if colon2(i):
            lead = True
            out += [['p', ':', 1], ['p', ':', 0]]
            i += 2
        while True:
            if i >= len(ts) or ts[i][0] != 'i':
                raise Fail()
            name = ts[i][1]
            if name in STRICT_KW and name not in ('self', 'Self', 'super', 'crate', 'try'):
                raise Fail()
            i += 1
            out.append(['i', name])
            args = None
            j = i
            if name not in ('self', 'super', 'crate', 'Self', 'try') or True:
                if self.peek((ts, i), '<') and not self.peek((ts, i), '<='):
                    j = i
                elif colon2(i) and self.peek((ts, i + 2), '<'):
                    j = i + 2
                else:
                    j = None
                if j is not None:
                    if name in ('self', 'super', 'crate', 'Self', 'try'):
                        if name != 'Self':
                            raise Unknown('generics on ' + name)
                    depth, k = 0, j
                    while True:
                        if k >= len(ts):
                            raise Fail()
                        t = ts[k]
                        if t[0] == 'p' and t[1] == '<':
                            depth += 1
                        elif t[0] == 'p' and t[1] == '>' and not (ts[k - 1][0] == 'p' and ts[k - 1][1] == '-'):
                            depth -= 1
                            if depth == 0:
                                break
                        elif t[0] == 'p' and t[1] not in ',:&\'=->+*':
                            raise Unknown('generics')
                        elif t[0] == 'l' and not t[1].isdigit() or (t[0] == 'g' and t[1] != '('):
                            raise Unknown('generics')
                        k += 1
                    args = ts[j:k + 1]
                    if not generics(args):
                        raise Unknown('generics')
                    i = k + 1
                    out += [['p', ':', 1], ['p', ':', 0]] + list(args)
            segs.append((name, args))
            if colon2(i):
                nx = ts[i + 2] if i + 2 < len(ts) else None
                if nx is not None and nx[0] == 'g' and nx[1] == '(':
                    raise Unknown('path')
                out += [['p', ':', 1], ['p', ':', 0]]
                i += 2
                continue
            break
        assert i > start
        single = segs[0][0] if not lead and len(segs) == 1 and segs[0][1] is None else None
        return V('Path', None, {'toks': out, 'single': single}), (ts, i)

    # --- control
    def fail(self):
        raise Fail()

    def err(self):
        self.reported = True
        self.diag |= self.lab()

    def abort(self):
        self.err()
        raise Abort()

    def call(self, name, *args):
        cut = spec.CUTS[name]
        self.depth += 1
        if self.depth > 400:
            raise Unknown('depth')
        try:
            return cut.fn(self, *args)
        finally:
            self.depth -= 1

    def attempt(self, name, c):
        try:
            return self.call(name, c)
        except Fail:
            return None

    def attempt_raw(self, name, c):
        r = self.attempt(name, c)
        return r if r is not None else (None, c)

    def loop(self, step, c, mode):
        accs = None
        n = 0
        while True:
            lab, c, d = step(c, mode)
            accs = d if accs is None else tuple(a + b for a, b in zip(accs, d))
            if lab.startswith('exit'):
                return lab, c, accs
            mode = lab
            n += 1
            if n > 5000:
                raise Unknown('loop')

    # --- values
    def mk(self, ty, var, /, **f):
        return V(ty, var, f)

    def variant(self, v):
        return v.var

    def get(self, v, var, f):
        if v is ANY:
            return ANY
        assert v.var == var, (v.ty, v.var, var)
        return v.f[f]

    def some(self, x):
        return (x,)

    def none(self):
        return ()

    def opt(self, v):
        return v[0] if v else None

    def anything(self, ty):
        if ty == 'Value':
            return V('Value', 'Block', {'tokens': []})
        return '__any'

    def true_value(self):
        return V('Value', 'Lit', {'_0': ['i', 'true']})

    def pair(self, a, b):
        return (a, b)

    def span(self):
        return None

    # --- strings and identifiers (text)
    def string(self, s):
        return s

    def unraw(self, i):
        return i[2:] if i.startswith('r#') else i

    def unraw_str(self, i):
        return self.unraw(i)

    def is_raw(self, i):
        return i.startswith('r#')

    def raw_ident(self, s):
        if s in ('_', 'self', 'Self', 'super', 'crate'):
            return s
        return 'r#' + s

    def snake_ident(self, k):
        return self.raw_ident(self.get(k, None, 'repr').replace('-', '_'))

    def display(self, lit):
        return lit[1]

    def litstr_value(self, l):
        return str_value(l[1])

    def lit_is_str(self, l):
        return l[0] == 'l' and str_value(l[1]) is not None

    def ident_is(self, i, s):
        return i == s

    def str_is(self, a, s):
        return a == s

    def contains(self, s, x):
        return x in s

    def starts_with(self, s, x):
        return s.startswith(x)

    def first_is_upper(self, s):
        return 'A' <= s[:1] <= 'Z'

    def in_set(self, s, st):
        return s in st

    def svg_tags(self):
        return tables.SVG

    def math_tags(self):
        return tables.MATH

    def directive_name(self, d, names):
        t = d.f['dir']
        return t if t in names else None

    def camel_to_snake(self, s):
        out = ''
        for ch in s:
            if 'A' <= ch <= 'Z':
                if out:
                    out += '_'
                ch = ch.lower()
            out += ch
        return out

    def path1(self, ident):
        return V('Path', None, {'toks': [['i', ident]], 'single': ident})

    def path_ident(self, p):
        return p.f['single']

    def path_tokens(self, p):
        return [self.mark(t) for t in p.f['toks']]

    # --- sequences
    def seq(self):
        return []

    def unit(self, x):
        if isinstance(x, str):
            return [('i', x, self.lab())]
        if isinstance(x, list):
            return [self.mark(x)]
        return [x]

    def mark(self, t):
        if len(t) and isinstance(t[-1], frozenset):
            return t
        if t[0] == 'g':
            return ('g', t[1], [self.mark(x) for x in t[2]], self.lab())
        return (t[0], t[1], self.lab())

    def cat(self, *xs):
        out = xs[0]
        for x in xs[1:]:
            out = out + x
        return out

    def fm(self, seq, f):
        out = []
        for x in seq:
            out = out + list(f(x))
        return out

    def fm_groups(self, pairs, f):
        d = {}
        for k, v in pairs:
            d.setdefault(k, []).append(v)
        out = []
        for k in sorted(d):
            out += f(k, d[k])
        return out

    def join(self, seq, sep, f):
        out = []
        for n, x in enumerate(seq):
            out += (sep if n else []) + f(x)
        return out

    def join_str(self, seq, sep, f):
        return sep.join(f(x) for x in seq)

    def nonempty(self, s):
        return len(s) > 0

    def len_is_one(self, s):
        return len(s) == 1

    def toks(self, lit):
        return [self.mark(lit)]

    def lit(self, s):
        return ('S', s)

    def q(self, t, /, **kw):
        return self._q(tmpl.parse(t), kw)

    def _q(self, items, kw):
        out = []
        lab = self.lab()
        for it in items:
            if it[0] == '$':
                v = kw[it[1]]
                if isinstance(v, str):
                    out.append(('i', v, lab | {'C07'}))
                elif isinstance(v, tuple) and v and v[0] == 'S':
                    out.append(('s', v[1], lab | {'C07'}))
                else:
                    out += v
            elif it[0] == 'g':
                out.append(('g', it[1], self._q(it[2], kw), lab))
            elif it[0] == 'p':
                out += [('p', ch, lab) for ch in it[1]]
            else:
                out.append((it[0], it[1], lab))
        return out


def flat(ts, out):
    """flatten to [(text, labels)]; strings compare by value"""
    for t in ts:
        k = t[0]
        lab = t[-1] if isinstance(t[-1], frozenset) else frozenset()
        if k == 'g':
            d = {'n': ('', '')}.get(t[1]) or (t[1], {'(': ')', '[': ']', '{': '}'}[t[1]])
            if d[0]:
                out.append((d[0], lab))
            flat(t[2], out)
            if d[0]:
                out.append((d[1], lab))
        elif k == 's':
            out.append((('s', t[1]), lab))
        elif k == 'l':
            x = t[1]
            if x.startswith('-'):
                out.append(('-', lab))
                x = x[1:]
            v = None
            if x.startswith('"'):
                try:
                    v = str_value(x)
                except Exception:
                    v = None
            out.append((x if v is None else ('s', v), lab))
        else:
            x = t[1]
            if k == 'i' and x.startswith('r#') and x[2:] not in STRICT_KW:
                x = x[2:]
            out.append((x, lab))
    return out


def expected(tokens):
    """-> (reported, tokens or None, diag labels)"""
    S = ConcS()
    try:
        out = S.call('mview', (tokens, 0))
    except Abort:
        return True, None, S.diag
    except Fail:
        return True, None, S.diag
    except Unknown:
        if S.reported:
            # whatever happens next, the input is already reported
            return True, None, S.diag
        raise
    if S.reported:
        return True, None, S.diag
    return False, out, S.diag


def parse_reports(tokens):
    """is the input already reported while parsing?"""
    S = ConcS()
    try:
        _, c = S.call('Children_parse', (tokens, 0))
    except (Fail, Abort, Unknown):
        return True
    return S.reported or not S.eof(c)


def is_error_output(toks):
    """does the expansion contain a top-level `compile_error!`?"""
    for a, b in zip(toks, toks[1:]):
        if a[0] == 'i' and a[1] == 'compile_error' and b[0] == 'p' and b[1] == '!':
            return True
    return False


def is_error(toks):
    """diagnostics come out as a group / sequence with compile_error! in it"""
    if is_error_output(toks):
        return True
    # proc_macro_error2 wraps: { ::core::compile_error!{..} .. () }
    for t in toks:
        if t[0] == 'g' and is_error(t[2]):
            return True
    return False


def judge(rec):
    """compare one harness record with the contract.
    -> None if equal, else dict(kind, labels, detail)"""
    inparse = False
    try:
        rep, exp, diag = expected(rec['in'])
        if rep:
            inparse = parse_reports(rec['in'])
    except Unknown as e:
        rep = None
    except RecursionError:
        rep = None
    if 'panic' in rec:
        soft = all_labels(exp) if rep is False else ()
        hang = rec['panic'].startswith('no answer')
        return dict(kind='panic', labels={'C02', 'C03'} if 'process died' in rec['panic'] else {'C03'} if hang else {'C02'},
                    detail=rec['panic'], soft=soft, dead=hang or 'process died' in rec['panic'])
    if rec.get('unstable'):
        return dict(kind='unstable', labels={'C05'}, detail='two runs on the same input differ')
    if rep is None:
        return 'skip'
    got = rec['out']
    got_err = is_error(got)
    if rep and not got_err:
        return dict(kind='unreported', labels={'C14', 'C01'} | set(diag) | ({'C18', 'C03'} if inparse else set()),
                    detail='accepted without a diagnostic', got=show(got))
    if not rep and got_err:
        return dict(kind='false-report', labels={'C15', 'C18'}, soft=all_labels(exp), detail='well-formed input is reported',
                    expected=show(exp), got=show(got)[:400])
    if rep:
        return None
    h = hidden_names(got, {}) if HIDDEN(got) else {}
    a, b = flat(exp, []), flat(got, [])
    at, bt = [x[0] for x in a], [x[0] for x in b]
    user = sorted((set(h) & bare(at)) - {'__x', 'allow', 'leptos', 'std'})
    if at == bt and user:
        return dict(kind='hygiene', labels={'C19', 'C15'}, detail='not resolved where the macro is called: %s' % user,
                    expected=show(exp), got=show(got))
    if at == bt:
        return None
    extra = set()
    if sorted(map(repr, at)) == sorted(map(repr, bt)):
        extra = {'C06', 'C04', 'C16'}
    if not hygienic(bt) and hygienic(at) or bare(bt) - bare(at):
        extra.add('C19')
    return dict(kind='tokens', labels=diff_labels(a, b) | extra, detail='expansion differs',
                expected=show(exp), got=show(got))


def HIDDEN(ts):
    return any(t[0] == 'i' and len(t) > 2 or t[0] == 'g' and HIDDEN(t[2]) for t in ts)


def hidden_names(ts, out):
    """the names with a span that hides them from the call site, that are
    looked up (no methods, no parts of paths)"""
    for i, t in enumerate(ts):
        if t[0] == 'g':
            hidden_names(t[2], out)
        elif t[0] == 'i' and len(t) > 2:
            prev = [x[1] if x[0] == 'p' else '' for x in ts[max(0, i - 2):i]]
            if prev[-1:] == ['.'] or prev == [':', ':']:
                continue
            x = t[1]
            out[x[2:] if x.startswith('r#') and x[2:] not in STRICT_KW else x] = True
    return out


def hygienic(ts):
    """every `leptos` / `std` / `core` path of the expansion is absolute"""
    for i, t in enumerate(ts):
        if t in ('leptos', 'std', 'core', 'alloc', 'leptos_mview') and ts[i + 1:i + 3] == [':', ':']:
            if ts[max(0, i - 2):i] != [':', ':']:
                return False
            p = ts[i - 3] if i >= 3 else '('
            if isinstance(p, str) and (p[:1].isalnum() or p[:1] in '_>'):
                return False
    return True


KEYWORDS = STRICT_KW | set('_ true false await async dyn'.split())


def bare(ts):
    """the identifiers of the expansion that are looked up at the call site"""
    out = set()
    for i, t in enumerate(ts):
        if isinstance(t, str) and (t[:1].isalpha() or t[:1] == '_') and t not in KEYWORDS:
            if i and ts[i - 1] == '.' or ts[max(0, i - 2):i] == [':', ':']:
                continue
            out.add(t)
    return out


def all_labels(ts):
    out = set()
    for x in flat(ts, []):
        out |= x[1]
    return sorted(out)


def diff_labels(a, b):
    import difflib
    at = [repr(x[0]) for x in a]
    bt = [repr(x[0]) for x in b]
    labels = set()
    for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, at, bt, autojunk=False).get_opcodes():
        if op == 'equal':
            continue
        if i1 < i2:
            for x in a[i1:i2]:
                labels |= x[1]
            if op == 'delete' and (i2 - i1) > (j2 - j1):
                labels.add('C01')
        else:
            for x in a[max(0, i1 - 1):i1 + 1]:
                labels |= x[1]
    return labels


def show(ts):
    return ' '.join(x[0] if isinstance(x[0], str) else '"%s"' % x[0][1] for x in flat(ts, []))
