"""Confirms with SMT solvers what the verifier's decision procedures (sx.py)
found implied: every (facts |- atom) that cut a branch is turned into SMT-LIB,
with an encoding written independently of the procedures, and the negation must
be unsatisfiable.

Encoding: an identifier is a text of identifier characters and a flag `raw`;
`disp` is the text with `r#` in front if raw.  A cursor is the kind of the token
there (0 end, 1 identifier, 2 literal, 3 punctuation, 4 `{`, 5 `[`, 6 `(`), for
punctuation the longest joined run, for literals whether string, integer, or
another, and for a `-` whether a number follows.  An enum value is the index of
its variant, a sequence its length."""
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import conc

Z3 = ['z3', '-in', '-T:20']
CVC5 = ['cvc5', '--lang=smt2', '--strings-exp', '--tlimit-per=20000', '--incremental']
STRICT = sorted(conc.STRICT_KW)
WSU = [0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
_c = [0x7f] + WSU + [0x30000]
# no character of a name is white space
NWS = ' '.join('(re.range "\\u{%x}" "\\u{%x}")' % (a + 1, b - 1) for a, b in zip(_c, _c[1:]) if b - a > 1)
WS = ('(re.union (re.range "\\u{9}" "\\u{d}") (str.to_re " ") (re.range "\\u{2000}" "\\u{200a}") ' +
      ' '.join('(str.to_re "\\u{%x}")' % c for c in WSU if not 0x2000 <= c < 0x200b) + ')')
IDENT = ('(re.++ (re.union (re.range "A" "Z") (re.range "a" "z") (str.to_re "_") ' + NWS + ') '
         '(re.* (re.union (re.range "A" "Z") (re.range "a" "z") (re.range "0" "9") (str.to_re "_") '
         '' + NWS + ')))')
TAIL = '(re.* (re.union (re.range "A" "Z") (re.range "a" "z") (re.range "0" "9") (str.to_re "_") ' + NWS + '))'
# of the name of a KebabIdent (an invariant, see models.py)
KEBAB = ('(re.++ (re.union (re.range "A" "Z") (re.range "a" "z") (str.to_re "_") (str.to_re "-") ' + NWS + ') '
         '(re.* (re.union (re.range "A" "Z") (re.range "a" "z") (re.range "0" "9") (str.to_re "_") (str.to_re "-") '
         '' + NWS + ')))')
PUNCT = '(re.+ (re.union ' + ' '.join('(str.to_re "%s")' % c for c in "!#$%&'*+,-./:;<=>?@^|~") + '))'


def q(s):
    return '"' + ''.join(c if ' ' <= c <= '~' and c not in '"\\' else '\\u{%x}' % ord(c) for c in s) + '"'


class Enc:
    def __init__(self, progress):
        self.names = {}
        self.lines = []
        self.progress = progress

    def new(self, key, sort):
        n = self.names.get(key)
        if n is None:
            n = self.names[key] = 'v%d' % len(self.names)
            self.lines.append('(declare-const %s %s)' % (n, sort))
            return n, True
        return n, False

    def ax(self, s):
        self.lines.append('(assert %s)' % s)

    def ident(self, i):
        u, fresh = self.new(('u', i), 'String')
        r, _ = self.new(('r', i), 'Bool')
        if fresh:
            self.ax('(str.in_re %s %s)' % (u, IDENT))
        return u, r

    def ascii_start(self, s, n):
        return '(str.in_re %s (re.++ ((_ re.^ %d) (re.range "\\u{0}" "\\u{7f}")) re.all))' % (s, n) if n else 'true'

    def sfn(self, t):
        """what is true of each function of a text"""
        s = self.text(t[2])
        n, fresh = self.new(('s', t), 'String')
        if not fresh:
            return n
        f, args = t[1], t[3:]
        if f in ('trim', 'trims', 'trime', 'tsm', 'tem', 'tm'):
            p, _ = self.new(('pre', t), 'String')
            e, _ = self.new(('post', t), 'String')
            one = '(str.to_re %s)' % q(args[0]) if args else WS
            self.ax('(= %s (str.++ %s %s %s))' % (s, p, n, e))
            for x, on in ((p, f != 'trime' and f != 'tem'), (e, f != 'trims' and f != 'tsm')):
                self.ax('(str.in_re %s (re.* %s))' % (x, one) if on else '(= %s "")' % x)
            for op, on in (('prefixof', f != 'trime' and f != 'tem'), ('suffixof', f != 'trims' and f != 'tsm')):
                if on:
                    for c in args or '\t\n\x0b\x0c\r ':
                        self.ax('(not (str.%s %s %s))' % (op, q(c), n))
        elif f in ('aslower', 'asupper', 'lower', 'upper'):
            off = '(str.in_re %%s (re.* (re.union (re.range "\\u{0}" "%s") (re.range "%s" "\\u{7f}")%s)))' % (
                ('@', '[', '%s') if 'lower' in f else ('`', '{', '%s'))
            rest = ' (re.range "\\u{80}" "\\u{2FFFF}")' if f[:2] == 'as' else ''
            none = '(re.none)'
            # a text without letters of the other case stays
            self.ax('(=> %s (= %s %s))' % (off % (s, rest or ' re.none'), n, s))
            self.ax(off % (n, ' (re.range "\\u{80}" "\\u{2FFFF}")'))
            self.ax('(= (= %s "") (= %s ""))' % (n, s))
            if f != 'upper':
                for x in (IDENT, TAIL):
                    self.ax('(=> (str.in_re %s %s) (str.in_re %s %s))' % (s, x, n, x))
            if f[:2] == 'as':
                self.ax('(= (str.len %s) (str.len %s))' % (n, s))
            for c in '-_':
                self.ax('(= (str.contains %s "%s") (str.contains %s "%s"))' % (n, c, s, c))
        elif f == 'suffix':
            self.ax('(and (str.suffixof %s %s) (< (str.len %s) (str.len %s)) (or (= %s "") (str.in_re %s %s)))' % (n, s, n, s, n, n, IDENT))
            self.ax('(=> (str.in_re %s (re.+ (re.range "0" "9"))) (= %s ""))' % (s, n))
        elif f == 'digits':
            self.ax('(str.in_re %s (re.++ (re.opt (str.to_re "-")) (re.+ (re.range "0" "9"))))' % n)
            self.ax('(=> (str.in_re %s (re.++ (re.range "1" "9") (re.* (re.range "0" "9")))) (= %s %s))' % (s, n, s))
        elif f == 'skip':
            self.ax('(= %s (str.substr %s %d (str.len %s)))' % (n, s, args[0], s))
        elif f in ('btake', 'bskip'):
            a, _ = self.new(('s', ('sfn', 'btake') + t[2:]), 'String')
            b, _ = self.new(('s', ('sfn', 'bskip') + t[2:]), 'String')
            self.ax('(= %s (str.++ %s %s))' % (s, a, b))
            self.ax('(and (<= (str.len %s) %d) (<= %d (* 4 (str.len %s))))' % (a, args[0], args[0], a))
            self.ax('(=> %s (= (str.len %s) %d))' % (self.ascii_start(s, args[0]), a, args[0]))
        elif f == 'drop':
            self.ax('(= %s (str.substr %s 0 (- (str.len %s) %d)))' % (n, s, s, args[0]))
        elif f in ('seg0', 'after'):
            # the text before (after) the first of the separators
            d = q(args[0])
            a, _ = self.new(('s', ('sfn', 'seg0') + t[2:]), 'String')
            b, _ = self.new(('s', ('sfn', 'after') + t[2:]), 'String')
            self.ax('(ite (str.contains %s %s) (and (= %s (str.++ %s %s %s)) (not (str.contains (str.++ %s %s) %s))) (and (= %s %s) (= %s %s)))' % (
                s, d, s, a, d, b, a, q(args[0][:-1]), d, a, s, b, s))
        elif f in ('rbefore', 'rafter'):
            d = q(args[0])
            a, _ = self.new(('s', ('sfn', 'rbefore') + t[2:]), 'String')
            b, _ = self.new(('s', ('sfn', 'rafter') + t[2:]), 'String')
            self.ax('(ite (str.contains %s %s) (and (= %s (str.++ %s %s %s)) (not (str.contains %s %s))) (and (= %s %s) (= %s %s)))' % (
                s, d, s, a, d, b, b, d, a, s, b, s))
        elif f == 'replacen':
            if re.fullmatch('[-_A-Za-z][-\\w]*', args[1], re.A):
                self.ax('(=> (str.in_re %s %s) (str.in_re %s %s))' % (s, KEBAB, n, KEBAB))
            self.ax('(=> (not (str.contains %s %s)) (= %s %s))' % (s, q(args[0]), n, s))
        elif f == 'replall':
            if re.fullmatch('[-_A-Za-z][-\\w]*', args[1], re.A):
                self.ax('(=> (str.in_re %s %s) (str.in_re %s %s))' % (s, KEBAB, n, KEBAB))
            self.ax('(= %s (str.replace_all %s %s %s))' % (n, s, q(args[0]), q(args[1])))
        return n

    def text(self, t):
        h = t[0] if isinstance(t, tuple) and t else None
        if h == 'sfn':
            return self.sfn(t)
        if h in ('unraw', 'disp') and len(t) == 2:
            u, r = self.ident(t[1])
            return u if h == 'unraw' else '(ite %s (str.++ "r#" %s) %s)' % (r, u, u)
        n, fresh = self.new(('s', t), 'String')
        if fresh:
            if h in ('kname', 'display', 'chr1') or h == 'fld' and t[3] == 'repr':
                self.ax('(not (= %s ""))' % n)
            if h == 'fld' and t[3] == 'repr':
                self.ax('(str.in_re %s %s)' % (n, KEBAB))
            if h == 'valid':
                self.ax('(str.in_re %s %s)' % (n, IDENT))
            if h == 'repl' and len(t[2]) == 1:
                s = self.text(t[1])
                self.ax('(=> (not (str.contains %s %s)) (= %s %s))' % (s, q(t[2]), n, s))
                if len(t[3]) == 1:
                    self.ax('(= (str.len %s) (str.len %s))' % (n, s))
                if t[2:] == ('-', '_'):
                    self.ax('(=> (str.in_re %s %s) (str.in_re %s %s))' % (s, KEBAB, n, IDENT))
            if h == 'repl' and t[2] not in t[3]:
                self.ax('(not (str.contains %s %s))' % (n, q(t[2])))
        return n

    def cursor(self, c):
        k, fresh = self.new(('k', c), 'Int')
        lk, _ = self.new(('lk', c), 'Int')
        p, _ = self.new(('p', c), 'String')
        neg, _ = self.new(('neg', c), 'Bool')
        pa, _ = self.new(('pa', c), 'Bool')
        if fresh:
            u, r = self.ident(('id', c))
            self.ax('(and (<= 0 %s) (<= %s 6))' % (k, k))
            self.ax('(and (<= 0 %s) (<= %s 2))' % (lk, lk))
            self.ax('(=> (= %s 3) (str.in_re %s %s))' % (k, p, PUNCT))
            self.ax('(=> %s (and (= %s 3) (str.prefixof "-" %s)))' % (neg, k, p))
            self.ax('(=> %s (or (= %s 1) (and (= %s 3) (or (str.prefixof "::" %s) (str.prefixof "<" %s)))))'
                    % (pa, k, k, p, p))
            if c[0] in ('end',):
                self.ax('(= %s 0)' % k)
            if c[0] == 'sk':
                self.ax('(=> (= %s 0) (= %s 0))' % (self.cursor(c[1])[0], k))
        return k, lk, p, neg, pa

    def is_(self, kind, c):
        k, lk, p, neg, pa = self.cursor(c)
        if kind == 'eof':
            return '(= %s 0)' % k
        if kind == 'TokenTree':
            return '(not (= %s 0))' % k
        if kind == 'IdentAny':
            return '(= %s 1)' % k
        if kind == 'Ident':
            d = self.text(('disp', ('id', c)))
            return '(and (= %s 1) (not (or %s)))' % (k, ' '.join('(= %s %s)' % (d, q(x)) for x in STRICT))
        if kind.startswith('kw:'):
            return '(and (= %s 1) (= %s %s))' % (k, self.text(('disp', ('id', c))), q(kind[3:]))
        if kind == 'Lit':
            d = self.text(('disp', ('id', c)))
            return '(or (= %s 2) (and (= %s 1) (or (= %s "true") (= %s "false"))) %s)' % (k, k, d, d, neg)
        if kind == 'LitStr':
            return '(and (= %s 2) (= %s 0))' % (k, lk)
        if kind == 'LitInt':
            return '(or (and (= %s 2) (= %s 1)) %s)' % (k, lk, neg)
        if kind in ('Brace', 'Bracket', 'Paren'):
            return '(= %s %d)' % (k, {'Brace': 4, 'Bracket': 5, 'Paren': 6}[kind])
        if kind == 'Path':
            return pa
        return '(and (= %s 3) (str.prefixof %s %s))' % (k, q(kind), p)

    def cased(self, h, t, k):
        """a condition on a text in lower (upper) case is one on the text"""
        f, s, n = t[1], self.text(t[2]), self.text(t)
        plain = {'streq': '(= %s %s)' % (n, q(k)), 'cont': '(str.contains %s %s)' % (n, q(k)),
                 'sw': '(str.prefixof %s %s)' % (q(k), n), 'ew': '(str.suffixof %s %s)' % (q(k), n)}[h]
        if not k or not k.isascii():
            return plain
        if f == 'asupper':
            if k != k.upper():
                return 'false'
        elif k != k.lower():
            return 'false'
        r = []
        for i, c in enumerate(k):
            cs = {c, c.upper(), c.lower()}
            if f == 'lower' and c == 'k':
                cs.add('\u212a')
            if f == 'lower' and c == 'i' and h in ('sw', 'cont') and i == len(k) - 1:
                cs.add('\u0130')
            r.append('(re.union re.none %s)' % ' '.join('(str.to_re %s)' % q(x) for x in sorted(cs)))
        r = '(re.++ (str.to_re "") %s)' % ' '.join(r)
        r = '(re.++ %s %s %s)' % ('re.all' if h in ('ew', 'cont') else '(str.to_re "")', r, 're.all' if h in ('sw', 'cont') else '(str.to_re "")')
        x = '(str.in_re %s %s)' % (s, r)
        self.ax('(= %s %s)' % (plain, x))
        return x

    def atom(self, a):
        h = a[0]
        if h == 'is':
            return self.is_(a[1], a[2])
        if h == 'ok':
            n, fresh = self.new(('ok', a[1], a[2]), 'Bool')
            if fresh and a[1] in self.progress:
                self.ax('(=> %s (not (= %s 0)))' % (n, self.cursor(a[2])[0]))
            return n
        if h == 'raw':
            return self.ident(a[1])[1]
        if h == 'isv':
            n, fresh = self.new(('v', a[1]), 'Int')
            if fresh:
                self.ax('(and (<= 0 %s) (< %s %d))' % (n, n, len(a[3])))
            return '(= %s %d)' % (n, a[3].index(a[2]))
        if h in ('upper', 'chr', 'cge') or h.startswith('is_'):
            n, fresh = self.new(('c', a[1]), 'Int')
            if fresh:
                self.ax('(<= 0 %s 1114111)' % n)
                if a[1][0] == 'c0':
                    t = self.text(a[1][1])
                    self.ax('(= %s (ite (= (str.len %s) 0) %s (str.to_code (str.at %s 0))))' % (n, t, n, t))
            rng = {'upper': [(65, 90)], 'is_ascii_lowercase': [(97, 122)], 'is_ascii_alphabetic': [(65, 90), (97, 122)],
                   'is_ascii_digit': [(48, 57)], 'is_ascii_alphanumeric': [(48, 57), (65, 90), (97, 122)],
                   'is_ascii': [(0, 127)],
                   'is_ascii_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)]}.get(h)
            if h == 'chr':
                return '(= %s %d)' % (n, ord(a[2]))
            if h == 'cge':
                return '(>= %s %d)' % (n, ord(a[2]))
            if rng:
                return '(or false %s)' % ' '.join('(<= %d %s %d)' % (x, n, y) for x, y in rng)
            rng = {'is_uppercase': [(65, 90)], 'is_lowercase': [(97, 122)], 'is_alphabetic': [(65, 90), (97, 122)],
                   'is_alphanumeric': [(48, 57), (65, 90), (97, 122)], 'is_numeric': [(48, 57)],
                   'is_whitespace': [(9, 13), (32, 32)]}[h]
            b, _ = self.new(('b', a), 'Bool')       # beyond ASCII: anything
            return '(ite (< %s 128) (or false %s) %s)' % (n, ' '.join('(<= %d %s %d)' % (x, n, y) for x, y in rng), b)
        if h == 'lenge':
            n, fresh = self.new(('len', a[1]), 'Int')
            if fresh:
                self.ax('(<= 0 %s)' % n)
            return '(>= %s %d)' % (n, a[2])
        if h in ('len1', 'any'):
            n, fresh = self.new(('len', a[1]), 'Int')
            if fresh:
                self.ax('(<= 0 %s)' % n)
                if a[1][0] == 'fld' and a[1][3] == 'spans':
                    self.ax('(< 0 %s)' % n)
            return '(= %s 1)' % n if h == 'len1' else '(< 0 %s)' % n
        s = self.text(a[1])
        if h in ('streq', 'sw', 'ew', 'cont') and a[1][0] == 'sfn' and a[1][1] in ('aslower', 'asupper', 'lower'):
            return self.cased(h, a[1], a[2])
        if h == 'streq':
            return '(= %s %s)' % (s, q(a[2]))
        if h == 'teq':
            return '(= %s %s)' % (s, self.text(a[2]))
        if h == 'cont':
            return '(str.contains %s %s)' % (s, q(a[2]))
        if h == 'sw':
            return '(str.prefixof %s %s)' % (q(a[2]), s)
        if h == 'ew':
            return '(str.suffixof %s %s)' % (q(a[2]), s)
        if h == 'inset':
            return '(or false %s)' % ' '.join('(= %s %s)' % (s, q(x)) for x in sorted(a[2]))
        if h == 'ne':
            return '(not (= %s ""))' % s
        if h == 'bnd':
            n, fresh = self.new(('bnd', a[1], a[2]), 'Bool')
            if fresh:
                self.ax('(=> %s %s)' % (self.ascii_start(s, a[2]), n))
                self.ax('(=> %s (<= %d (* 4 (str.len %s))))' % (n, a[2], s))
            return n
        if h == 'blen':
            # bytes: at least the characters, at most four times as many
            n, fresh = self.new(('bl', a[1]), 'Int')
            if fresh:
                self.ax('(<= (str.len %s) %s (* 4 (str.len %s)))' % (s, n, s))
            return '(>= %s %d)' % (n, a[2])
        n, _ = self.new(('b', a), 'Bool')
        return n


def script(facts, atom, v, progress):
    """SMT-LIB text, unsatisfiable iff the facts imply the atom"""
    e = Enc(progress)
    fs = [(e.atom(a), b) for a, b in facts]
    g = e.atom(atom)
    body = e.lines + ['(assert %s)' % (f if b else '(not %s)' % f) for f, b in fs]
    body.append('(assert %s)' % ('(not %s)' % g if v else g))
    return '\n'.join(body) + '\n(check-sat)\n'


class Confirmation:
    def __init__(self):
        self.total = self.done = 0
        self.refuted = []       # (function, script) the solver has a model against
        self.unknown = 0
        self.time = {}
        self.per = {}

    def summary(self):
        return {'implied decisions': self.total, 'confirmed': self.done, 'refuted': len(self.refuted),
                'unknown': self.unknown, 'by solver': self.per,
                'solver seconds': {k: round(t, 2) for k, t in self.time.items()}}


def ask(cmd, texts):
    """one solver process for many scripts -> answers"""
    inp = '(set-logic ALL)\n' + ''.join('(push 1)\n%s(pop 1)\n' % t for t in texts)
    try:
        p = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=240)
        out = re.findall(r'^(sat|unsat|unknown|timeout)$', p.stdout, re.M)
    except (subprocess.TimeoutExpired, OSError):
        out = []
    return out if len(out) == len(texts) else (out + ['unknown'] * len(texts))[:len(texts)]


def confirm(o, solvers):
    c = Confirmation()
    texts = {}
    for r in o.reports + o.lemmas:
        for t in r['queries']:
            texts.setdefault(t, r['name'])
    ts = sorted(texts)
    c.total = len(ts)
    ok = set()
    for s in solvers:
        cmd = Z3 if s == 'z3' else CVC5
        t0 = time.time()
        chunks = [ts[i::8] for i in range(8) if ts[i::8]]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda ch: ask(cmd, ch), chunks))
        c.time[s] = time.time() - t0
        n = 0
        for ch, rs in zip(chunks, res):
            for t, a in zip(ch, rs):
                if a == 'unsat':
                    ok.add(t)
                    n += 1
                elif a == 'sat':
                    c.refuted.append((texts[t], s, t))
        c.per[s] = n
    bad = {t for _, _, t in c.refuted}
    c.done = len(ok - bad)
    c.unknown = c.total - len(ok | bad)
    return c
