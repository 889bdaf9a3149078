"""The symbolic interpretation of the contracts of spec.py: arbitrary values,
arbitrary inputs.  `SymS` offers the operations the contracts are written
with; `Host` (same object) also gives the machine of rust.py the contracts of
the functions it calls."""
import conc
import spec
import sx
import tables
import tmpl
from sx import (Adt, ANY, Const, ERR, FM, Id, JN, K, O, Opq, PB, POS, Prune, Ref, Seq, SPAN, Tk, TOK, Tup, U, UNIT,
                Unsupported, Violated, W)


class SFail(Exception):
    pass


class SAbort(Exception):
    pass


# ----------------------------------------------------------------- cursors --

def root(c):
    h = c[0]
    if h in ('in', 'root'):
        return c
    if h in ('lc', 'lg'):
        return c[2]
    if h == 'end':
        return c[1]
    if h == 'tc':
        return ('tc', c[1])
    if h in ('cur', 'errcur'):
        return root(c[2])
    return root(c[1])


def canon(c):
    """the end of the input has one name"""
    if c[0] not in ('end', 'tc') and W().known(('is', 'eof', c)):
        return ('end', root(c))
    return c


PROGRESS = {n for n, k in spec.CUTS.items() if k.kind == 'parse'} - {'Attrs_parse', 'SelectorShorthands_parse',
                                                                     'Children_parse'}


def reach(c1, c0):
    """is c1 at or after c0?  None, 'same' or 'after'"""
    strict = False
    c = c1
    while True:
        if c == c0:
            return 'after' if strict else 'same'
        h = c[0]
        if h in ('sk', 'nx', 'nt'):
            strict = True
            c = c[1]
        elif h == 'cur':
            strict = strict or c[1] in PROGRESS
            c = c[2]
        elif h == 'errcur':
            c = c[2]
        elif h in ('lc', 'lg'):
            rec = LOOPS.get(c)
            if rec is None:
                return None
            c = rec
        elif h == 'end':
            if c[1] != root(c0):
                return None
            return 'after' if W().known(('is', 'eof', c0)) is False else 'same'
        elif h == 'in':
            if c == c1:
                return None
            return None
        else:
            return None


LOOPS = {}      # cursor of a loop -> where the loop starts


def inside(c, c0):
    """is c in a group at or after c0?"""
    while True:
        r = root(c)
        if r[0] != 'in':
            return False
        if reach(r[1], c0):
            return True
        c = r[1]


sx.PROGRESS |= PROGRESS
STRICT_KW = frozenset(conc.STRICT_KW)
BOOLS = frozenset(('true', 'false'))
KINDS = {'IdentAny', 'Lit', 'LitStr', 'LitInt', 'Brace', 'Paren', 'Bracket', 'Path', 'TokenTree', 'eof'} | \
    set(sx.TOK_BY_NAME.values())


# ------------------------------------------------------------- identifiers --

def unraw_text(v):
    if isinstance(v, Id):
        return v.text
    return Seq('str', [O(('unraw', v.term))])


def disp_text(v):
    if isinstance(v, Id):
        r = sx.id_raw(v)
        return v.text if r == 'no' else Seq('str', (K('r#'),) + v.text.parts)
    if W().known(('raw', v.term)) is False:
        return unraw_text(v)
    return Seq('str', [O(('disp', v.term))])


def ident_is(v, s):
    """`ident == "s"`"""
    if isinstance(v, Id):
        return sx.str_is(disp_text(v), s)
    return W().decide(('streq', ('disp', v.term), s))


def is_raw(v):
    if isinstance(v, Id):
        return sx.id_raw(v) == 'yes'
    return W().decide(('raw', v.term))


def unraw(v):
    if isinstance(v, Id):
        return Id(v.text, 'no')
    if W().known(('raw', v.term)) is False:
        return v
    return Id(unraw_text(v), 'no')


def replace_char(s, a, b):
    out = []
    for p in sx.flat(s.parts):
        if isinstance(p, K):
            out.append(K(p.s.replace(a, b)))
        elif isinstance(p, O):
            t = sx.skey1(p)
            if isinstance(t, str):
                out.append(K(t.replace(a, b)))
            elif W().known(('cont', p.term, a)) is False:
                out.append(p)
            else:
                out.append(O(('repl', p.term, a, b)))
        else:
            raise Unsupported('replace in a computed text')
    return Seq('str', out)


def chars_of(s):
    """the characters of a text, as the parts of a sequence"""
    out = []
    for p in sx.flat(s.parts):
        if isinstance(p, K):
            out += [U(ch) for ch in p.s]
        elif isinstance(p, O):
            t = sx.skey1(p)
            if isinstance(t, str):
                out += [U(ch) for ch in t]
            else:
                out.append(O(('chars', t), 'char'))
        elif isinstance(p, U):
            out.append(p)
        else:
            raise Unsupported('characters of a computed text')
    return out


def char_upper(ch):
    if isinstance(ch, str):
        return 'A' <= ch <= 'Z'
    return W().decide(('upper', ch.term))


def char_text(ch):
    if isinstance(ch, str):
        return K(ch)
    return O(('chr1', ch.term))


def char_lower(ch):
    """to_ascii_lowercase"""
    if isinstance(ch, str):
        return ch.lower() if 'A' <= ch <= 'Z' else ch
    if W().decide(('upper', ch.term)):
        return Opq('char', ('lower', ch.term))
    return ch


def first_char(s):
    """the first character of a text, or None"""
    ps = sx.flat(s.parts)
    if ps and isinstance(ps[0], K):
        return ps[0].s[0]
    if ps and isinstance(ps[0], U):
        return ps[0].v
    if not sx.decide_str('ne', s):
        return None
    if ps and isinstance(ps[0], O):
        t = sx.skey1(ps[0])
        if isinstance(t, str):
            return t[0]
        if len(ps) > 1 and W().known(('ne', ps[0].term)) is not True:
            raise Unsupported('first character of a computed text')
        return Opq('char', ('c0', t))
    raise Unsupported('first character of a computed text')


# ------------------------------------------------------------ paths, lits --

def path1(ident):
    seg = Adt('PathSegment', None, {'ident': ident, 'arguments': Adt('PathArguments', 'None')})
    return Adt('Path', None, {'leading_colon': Adt('Option', 'None'), 'segments': Seq('vec', [U(seg)])})


def path_single(p):
    """the identifier of a path that is just one, or None"""
    if isinstance(p, Opq):
        if W().decide(('pident', p.term)):
            return Opq('Ident', ('pid', p.term))
        return None
    ps = sx.flat(p.f['segments'].parts)
    if sx.variant(p.f['leading_colon']) == 'None' and len(ps) == 1 and isinstance(ps[0], U):
        seg = ps[0].v
        if sx.variant(sx.field(seg, None, 'arguments')) == 'None':
            return sx.field(seg, None, 'ident')
        return None
    raise Unsupported('get_ident of a computed path')


def path_toks(p):
    """`path.to_tokens`"""
    if isinstance(p, Opq):
        return Seq('tok', [O(('ptoks', p.term))])
    i = path_single(p)
    if i is None:
        raise Unsupported('tokens of a computed path')
    return Seq('tok', [U(i)])


def lit_toks(l):
    if isinstance(l, Opq):
        return Seq('tok', [U(Tk('lit', l.term))])
    if isinstance(l, Adt):
        if l.ty == 'LitStr':
            return Seq('tok', [U(Tk('s', l.f['text']))])
        if l.ty == 'Lit' and l.var == 'Str':
            return lit_toks(l.f['_0'])
        if l.ty == 'Lit' and l.var == 'Bool':
            return Seq('tok', [U(l.f['_0'])])
    raise Unsupported('tokens of %r' % (l,))


def litstr_value(l):
    if isinstance(l, Adt):
        return l.f['text']
    return Seq('str', [O(('litval', l.term))])


# ------------------------------------------------------------- the contracts --

RET = {'TagKind_from': 'TagKind', 'snake_case': 'str'}


def argkey(a):
    """a key of an argument that is an arbitrary value, None if it has a
    known structure"""
    if isinstance(a, Opq):
        return a.term
    if isinstance(a, Seq) and a.kind == 'str':
        k = sx.skey(a)
        if k == () or isinstance(k, tuple) and k and all(isinstance(x, str) for x in k):
            return None
        return k
    if isinstance(a, Adt) and not a.f:
        return ('v', a.var)
    return None


class SymS:
    def __init__(self, cut=None):
        self.stack = []
        self.cut = cut
        self.edges = set()
        self.ctoks = {}          # concrete token lists, by number
        self.inline = set()

    # -- labels
    def lab(self):
        return self.stack[-1] if self.stack else frozenset()

    def push(self, props):
        self.stack.append(frozenset(props))

    def pop(self):
        self.stack.pop()

    # -- cursors
    def tok_at(self, c, n=0):
        ts = self.ctoks[c[1]]
        i = c[2] + n
        return ts[i] if i < len(ts) else None

    def is_(self, c, k):
        if c[0] == 'tc':
            return self.conc_is(c, k)
        if c[0] == 'end':
            return k == 'eof'
        if k.startswith('kw:'):
            return W().decide(('is', 'IdentAny', c)) and W().decide(('streq', ('disp', ('id', c)), k[3:]))
        if k == 'Ident':
            return W().decide(('is', 'IdentAny', c)) and not W().decide(('inset', ('disp', ('id', c)), STRICT_KW))
        if k == 'Lit' and W().known(('is', 'IdentAny', c)):
            return W().decide(('inset', ('disp', ('id', c)), BOOLS))
        if k not in KINDS:
            raise Unsupported('tokens of kind ' + k)
        return W().decide(('is', k, c))

    def conc_is(self, c, k):
        t = self.tok_at(c)
        if k == 'eof':
            return t is None
        if t is None:
            return False
        if k == 'TokenTree':
            return True
        if isinstance(t, (Id, Opq)):
            if isinstance(t, Opq) and t.ty != 'Ident':
                raise Unsupported('parsing %r' % (t,))
            if k == 'IdentAny':
                return True
            if k == 'Ident':
                s = sx.const_of(unraw_text(t))
                if s is None:
                    raise Unsupported('parsing %r' % (t,))
                return s not in STRICT_KW
            if k.startswith('kw:'):
                return ident_is(t, k[3:])
            if k == 'Lit':
                return ident_is(t, 'true') or ident_is(t, 'false')
            return False
        if t.k == 'g':
            return k == {'{': 'Brace', '[': 'Bracket', '(': 'Paren'}.get(t.a)
        if t.k == 's':
            return k in ('Lit', 'LitStr')
        if t.k == 'p':
            return t.a.startswith(k)
        raise Unsupported('parsing %r' % (t,))

    def peek(self, c, k):
        return self.is_(c, k)

    def peek2(self, c, k):
        if c[0] == 'tc':
            return self.conc_is(('tc', c[1], c[2] + 1), k)
        if c[0] == 'end' or W().known(('is', 'eof', c)):
            return False
        return self.is_(('sk', c), k)

    def eof(self, c):
        return self.is_(c, 'eof')

    def after(self, c, k):
        if c[0] == 'tc':
            return ('tc', c[1], c[2] + 1)
        if k in ('IdentAny', 'Ident', 'Brace', 'Bracket', 'Paren', 'LitStr') or k.startswith('kw:') or \
                len(k) == 1:
            return ('sk', c)
        if k == 'TokenTree':
            return ('nt', c)
        return ('nx', c, k)

    def token(self, c, k):
        """the value of a token at c"""
        if c[0] == 'tc':
            t = self.tok_at(c)
            if k == 'Lit':
                if isinstance(t, Id):
                    return Adt('Lit', 'Bool', {'_0': t})
                return Adt('Lit', 'Str', {'_0': Adt('LitStr', None, {'text': t.a})})
            if k == 'LitStr':
                return Adt('LitStr', None, {'text': t.a})
            if k in ('IdentAny', 'Ident'):
                return t
            if k == 'Path':
                return path1(t)
            if k == 'TokenTree':
                return t
            return TOK
        if k in ('IdentAny', 'Ident'):
            return Opq('Ident', ('id', c))
        if k in ('Lit', 'LitStr', 'LitInt'):
            return Opq(k, (k.lower(), c))
        if k == 'Path':
            return Opq('Path', ('path', c))
        if k == 'TokenTree':
            return Opq('TokenTree', ('tt', c))
        return TOK

    def eat(self, c, k):
        if c[0] == 'tc' and k == 'Path':
            if not isinstance(self.tok_at(c), (Id, Opq)) or self.tok_at(c, 1) is not None:
                raise Unsupported('path')
            return self.token(c, k), self.after(c, k)
        if not self.is_(c, k):
            raise SFail()
        return self.token(c, k), self.after(c, k)

    def enter(self, c, d):
        if not self.is_(c, d):
            raise SFail()
        if c[0] == 'tc':
            n = len(self.ctoks)
            self.ctoks[n] = conc_tokens(self.tok_at(c).b)
            return ('tc', n, 0), self.after(c, d)
        return ('in', c), ('sk', c)

    def group_tokens(self, c, d):
        inner, c2 = self.enter(c, d)
        self.push(('C11',))
        r = self.rest(inner)
        self.pop()
        return r, c2

    def rest(self, c):
        if c[0] == 'tc':
            return Seq('tok', [U(t) for t in self.ctoks[c[1]][c[2]:]])
        if c[0] == 'end':
            return Seq('tok', [])
        return Seq('tok', [O(('rest', c), None, None, self.lab() | {'C11'})])

    def end(self, c):
        if c[0] == 'tc':
            return ('tc', c[1], len(self.ctoks[c[1]]))
        return ('end', root(c))

    def consume(self, c):
        return None, self.end(c)

    # -- control
    def fail(self):
        raise SFail()

    def err(self):
        W().E.append(('T', self.lab()))

    def abort(self):
        self.err()
        raise SAbort()

    def call(self, name, *args):
        cut = spec.CUTS[name]
        if cut.kind == 'parse':
            r = self.parse_contract(name, args[0])
            if r[0] is None:
                raise SFail()
            return r
        return self.tok_contract(name, args)

    def attempt(self, name, c):
        r = self.parse_contract(name, c)
        return None if r[0] is None else r

    def attempt_raw(self, name, c):
        return self.parse_contract(name, c)

    def with_lab(self, f):
        keep, self.stack = self.stack, [self.lab()]
        try:
            return f()
        finally:
            self.stack = keep

    def parse_contract(self, name, c):
        """(value or None, cursor)"""
        cut = spec.CUTS[name]
        if c[0] == 'tc':
            try:
                return cut.fn(self, c)
            except SFail:
                return None, c
        w = W()
        self.edge(name, c)
        ok = w.decide(('ok', name, c))
        w.E.append(('A', ('err', name, c), self.lab()))
        if ok:
            return sx.mk_opq(cut.ty if cut.ty != 'closure_args' else 'TokenStream', ('val', name, c)), ('cur', name, c)
        return None, ('errcur', name, c)

    def edge(self, name, c):
        """termination: the callee works on a strictly smaller input, or the
        call graph of the other calls has no cycle (checked by verify.py)"""
        if self.cut is not None and self.cut.kind == 'parse':
            r = reach(c, ('root',))
            if r != 'after' and not inside(c, ('root',)):
                self.edges.add((self.cut.name, name))

    def tok_contract(self, name, args):
        cut = spec.CUTS[name]
        w = W()
        keys = [argkey(a) for a in args]
        if cut.generic == 'some':
            comp = name in ('component_tok', 'slot_tok')
            if sx.is_variant(sx.field(args[0], None, 'tag'), 'Component') != comp:
                raise Prune() if isinstance(args[0], Adt) else Unsupported('a contract used outside its precondition')
        if any(k is None for k in keys) or all(isinstance(k, tuple) and k[0] == 'v' for k in keys) or name in self.inline:
            return self.with_lab(lambda: cut.fn(self, *args))
        if self.cut is not None and any(k and k[0] == 'arg' for k in keys):
            self.edges.add((self.cut.name, name))
        t = ('tok', name) + tuple(keys)
        lab = self.lab()
        if RET.get(name) == 'TagKind':
            return Opq('TagKind', t)
        if RET.get(name) == 'str':
            return Seq('str', [O(t, None, lambda: self.relab(lab, lambda: cut.fn(self, *args)), lab)])
        w.E.append(('A', ('err', t), lab))

        def unf(opt=False):
            def go():
                r = cut.fn(self, *args)
                if cut.generic == 'opt':
                    r = self.opt(r)
                    if r is None:
                        raise Prune()
                return r
            return self.relab(lab, go)
        r = Seq('tok', [O(t, None, unf, lab | frozenset(cut.props[:1]))])
        if cut.generic == 'opt':
            if not w.decide(('some', t)):
                return self.none()
            return self.some(r)
        return r

    def expand(self, c):
        """the result of `mview_impl`"""
        t = ('tok', 'mview', c)
        W().E.append(('A', ('err', t), self.lab()))
        return Seq('tok', [O(t, None, None, frozenset(('C04',)))])

    def relab(self, lab, f):
        keep, self.stack = self.stack, [lab]
        try:
            return f()
        finally:
            self.stack = keep

    def loop(self, step, c, mode):
        w = W()
        if c[0] == 'tc':
            accs = None
            for _ in range(1000):
                lab, c, d = step(c, mode)
                accs = d if accs is None else tuple(self.cat(a, b) for a, b in zip(accs, d))
                if lab.startswith('exit'):
                    return lab, c, accs
                mode = lab
            raise Unsupported('concrete loop')
        k = len(w.loops)
        keep = list(self.stack)

        def st(c, m):
            save, self.stack = self.stack, list(keep)
            try:
                return step(c, m)
            finally:
                self.stack = save
        lg, lc = ('lg', k, root(c)), ('lc', k, root(c))
        LOOPS[lg] = c
        LOOPS[lc] = c
        rec = {'k': k, 'c0': c, 'mode0': mode, 'LCg': lg, 'LC': lc, 'step': st, 'lab': self.lab() or frozenset(
            self.cut.props if self.cut else ())}
        modes = self.modes(rec)
        zero = w.choose()
        rec['zero'] = zero
        rec['mode'] = mode
        w.loops.append(rec)
        if zero:
            c1, m1 = c, mode
        else:
            if not modes:
                raise Prune()
            m1 = modes[0]
            for x in modes[1:]:
                if w.choose():
                    m1 = x
            rec['mode'] = m1
            c1 = lc
            w.E.append(('A', ('lerr', k), rec['lab']))
        lab, c2, d = step(c1, m1)
        if not lab.startswith('exit'):
            raise Prune()
        if zero:
            return lab, c2, d
        kinds = [x.kind for x in d]
        accs = tuple(self.cat(Seq(kd, [O(('lacc', k, j), None, None, self.lab())]), x)
                     for j, (x, kd) in enumerate(zip(d, kinds)))
        return lab, c2, accs

    def modes(self, rec):
        """the states of the contract's loop after at least one round"""
        out, todo = [], [(rec['mode0'], rec['c0'])]
        seen = set()
        while todo:
            m, c = todo.pop()
            if (m, c) in seen:
                continue
            seen.add((m, c))

            def b(w):
                r = self.spec_step(rec, c, m)
                if r is None:
                    raise Prune()
                return r[0]
            for m2 in sx.explore(b, W()):
                if m2 not in out:
                    out.append(m2)
                todo.append((m2, rec['LCg']))
        return sorted(out)

    def spec_step(self, rec, c, mode):
        try:
            lab, c2, d = rec['step'](c, mode)
        except SFail:
            return None
        if lab.startswith('exit'):
            return None
        return lab, canon(c2), d

    # -- for the machine
    def compare_reports(self, es, ei, rec):
        a, b = sx.e_true(es), sx.e_true(ei)
        if a and b:
            return True
        if not a and not b:
            return False
        if a:
            raise Violated('unreported', 'a loop round that must be reported is not', ('C14', 'C01') + tuple(a[-1]))
        raise Violated('false-report', 'a loop round reports what the contract accepts', ('C15',))

    def same(self, d, e):
        if d.kind != e.kind and 'any' not in (d.kind, e.kind):
            return False
        return sx.eq_seq(d, e)

    def advances(self, c1, c0):
        return reach(c1, c0) == 'after'

    # -- values
    def mk(self, ty, var, /, **f):
        return Adt(ty, var, f)

    def variant(self, v):
        return sx.variant(v)

    def get(self, v, var, f):
        return sx.field(v, var, f)

    def some(self, x):
        return Adt('Option', 'Some', {'_0': x})

    def none(self):
        return Adt('Option', 'None')

    def opt(self, v):
        if sx.variant(v) == 'None':
            return None
        return sx.field(v, 'Some', '_0')

    def anything(self, ty):
        return sx.mk_opq(ty, W().fresh('anything'))

    def true_value(self):
        return Adt('Value', 'Lit', {'_0': Adt('Lit', 'Bool', {'_0': Id(Seq('str', [K('true')]))})})

    def pair(self, a, b):
        return Tup([a, b])

    def span(self):
        return SPAN

    def token_value(self):
        return TOK

    # -- text
    def string(self, s):
        return Seq('str', [K(s, self.lab())] if s else [])

    def unraw(self, i):
        return unraw(i)

    def unraw_str(self, i):
        return self.mark(unraw_text(i))

    def mark(self, s):
        lab = self.lab()
        return Seq(s.kind, [O(p.term, p.ety, p.unf, lab) if isinstance(p, O) and not p.lab else p for p in s.parts])

    def is_raw(self, i):
        return is_raw(i)

    def raw_ident(self, s):
        return Id(s, 'auto')

    def snake_ident(self, k):
        return Id(replace_char(self.get(k, None, 'repr'), '-', '_'), 'auto')

    def display(self, lit):
        return Seq('str', [O(('display', lit.term), None, None, self.lab())])

    def litstr_value(self, l):
        return litstr_value(l)

    def lit_is_str(self, l):
        return sx.is_variant(l, 'Str')

    def ident_is(self, i, s):
        return ident_is(i, s)

    def str_is(self, a, s):
        return sx.str_is(a, s)

    def contains(self, s, x):
        return sx.decide_str('cont', s, x)

    def starts_with(self, s, x):
        return sx.decide_str('sw', s, x)

    def first_is_upper(self, s):
        ch = first_char(s)
        return ch is not None and char_upper(ch)

    def in_set(self, s, st):
        return sx.decide_str('inset', s, st)

    def svg_tags(self):
        return frozenset(tables.SVG)

    def math_tags(self):
        return frozenset(tables.MATH)

    def directive_name(self, d, names):
        i = self.get(d, None, 'dir')
        for n in names:
            if ident_is(i, n):
                return n
        return None

    def camel_to_snake(self, s):
        parts = []
        first = True
        for p in chars_of(s):
            def one(ch, first):
                up = char_upper(ch)
                return Seq('str', ([] if first or not up else [K('_')]) + [char_text(char_lower(ch))])
            if isinstance(p, U):
                parts += one(p.v, first).parts
                first = False
            elif first:
                parts.append(FM(p.term, 'char', lambda ch: one(ch, False), lambda ch: one(ch, True), self.lab()))
                first = len(chars_of(s)) == 1
                if not first and not sx.seq_nonempty(Seq('str', [p])):
                    raise Unsupported('text')
            else:
                parts.append(FM(p.term, 'char', lambda ch: one(ch, False), None, self.lab()))
        return Seq('str', parts)

    def path1(self, ident):
        return path1(ident)

    def path_ident(self, p):
        return path_single(p)

    def path_tokens(self, p):
        return path_toks(self.turbo(p))

    def turbo(self, p):
        """the contract of `turbofishify`"""
        if not isinstance(p, Opq):
            return p
        W().E.append(('A', ('err', 'turbo', p.term), self.lab()))
        return Opq('Path', ('turbo', p.term))

    # -- sequences
    def seq(self):
        return Seq('any', [])

    def unit(self, x):
        return Seq('any', [U(x, self.lab())])

    def cat(self, *xs):
        parts, kind = (), 'any'
        for x in xs:
            parts += x.parts
            if x.kind != 'any':
                kind = x.kind
        return Seq(kind, parts)

    def fm(self, seq, f):
        out = ()
        for p in sx.flat(seq.parts):
            out += self.fm1(p, f)
        return Seq('any', out)

    def fm1(self, p, f):
        f0 = f

        def f(x):
            try:
                return f0(x)
            except SAbort:
                return Seq('any', [])
        if isinstance(p, U):
            return tuple(f(p.v).parts)
        if isinstance(p, O) and not p.ety:
            raise Unsupported('a loop over %r' % (p,))
        if not isinstance(p, (O, FM)):
            raise Unsupported('a loop over %r' % (p,))
        keep = list(self.stack)

        def at(g):
            def fn(x):
                save, self.stack = self.stack, list(keep)
                try:
                    return g(x)
                finally:
                    self.stack = save
            return fn
        if isinstance(p, O):
            fn, fn0, s, ety = at(f), None, p.term, p.ety
        else:
            fn = at(lambda x: self.fm(p.fn(x), f))
            fn0 = at(lambda x: self.fm(p.fn0(x), f)) if p.fn0 else None
            s, ety = p.S, p.ety
        sx.e_any(s, ety, fn, self.lab())
        return (FM(s, ety, fn, fn0, self.lab()),)

    def fm_groups(self, pairs, f):
        parts = sx.flat(pairs.parts)
        if not parts:
            return Seq('any', [])
        w = W()
        i = len(w.groups)
        w.groups.append(Seq('vec', parts))
        S = ('groups', i)
        return Seq('any', self.fm1(O(S, 'group'), lambda g: f(g.xs[0], g.xs[1])))

    def join(self, seq, sep, f):
        out = ()
        first = True
        for p in sx.flat(seq.parts):
            if isinstance(p, U):
                out += (() if first else sep.parts) + f(p.v).parts
                first = False
            elif isinstance(p, O) and p.ety and first and len(seq.parts) == 1:
                keep = list(self.stack)

                def at(x, s):
                    save, self.stack = self.stack, list(keep)
                    try:
                        return Seq('any', s + f(x).parts)
                    finally:
                        self.stack = save
                sx.e_any(p.term, p.ety, f, self.lab())
                out += (FM(p.term, p.ety, lambda x: at(x, sep.parts), lambda x: at(x, ()), self.lab()),)
            else:
                raise Unsupported('join')
        return Seq('any', out)

    def join_str(self, seq, sep, f):
        return Seq('str', [JN(self.fm(seq, lambda x: Seq('any', [U(f(x))])), Seq('str', [K(sep)]), self.lab())])

    def nonempty(self, s):
        return sx.seq_nonempty(s)

    def len_is_one(self, s):
        return sx.seq_len1(s)

    def toks(self, lit):
        return lit_toks(lit)

    def lit(self, s):
        return Tk('s', s)

    def q(self, t, /, **kw):
        return Seq('tok', self._q(tmpl.parse(t), kw))

    def _q(self, items, kw):
        out = []
        lab = self.lab()
        for it in items:
            if it[0] == '$':
                v = kw[it[1]]
                if isinstance(v, Seq):
                    out += v.parts
                elif isinstance(v, (Opq, Id)):
                    out.append(U(v, lab | {'C07'}))
                else:
                    out.append(U(v, lab | {'C07'} if v.k == 's' else lab))
            elif it[0] == 'g':
                out.append(U(Tk('g', it[1], Seq('tok', self._q(it[2], kw))), lab))
            elif it[0] == 'p':
                out.append(U(Tk('p', it[1]), lab))
            elif it[0] == 'i':
                out.append(U(Id(Seq('str', [K(it[1])])), lab))
            else:
                out.append(U(Tk('lit', ('text', it[1])), lab))
        return out


def conc_tokens(seq):
    """a token sequence without symbolic parts, as a list"""
    out = []
    for p in sx.flat(seq.parts):
        if not isinstance(p, U):
            raise Unsupported('parsing generated tokens')
        out.append(p.v)
    return out
