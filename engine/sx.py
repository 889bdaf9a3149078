"""Symbolic values, the decision world and equality.

A *world* is one path of a case analysis: a set of facts (atoms with a truth
value).  `decide(atom)` returns the value of an atom; if neither the facts nor
the theory of the atom determine it, the exploration forks.  `explore` runs a
procedure once per leaf (by re-execution), so everything it establishes holds
for every assignment of the atoms: there is no bound on anything.

A generic element of an arbitrary sequence S is a fresh bound term; `forall`
explores a procedure about it in a child world, under what is known about
*every* element of S."""

import strs


class Prune(Exception):
    """the facts of this path are contradictory"""


class Unsupported(Exception):
    """outside the reach of the verifier: the obligation is not decided"""


class Violated(Exception):
    """an obligation fails on this path"""

    def __init__(self, kind, msg, labels=()):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg, self.labels = kind, msg, tuple(labels)
        self.checked = False
        self.names = ()


class NeedFirst(Exception):
    """the body of a loop depends on whether its accumulator is empty"""


# ------------------------------------------------------------------ values --

class Opq:
    __slots__ = ('ty', 'term')

    def __init__(self, ty, term):
        self.ty, self.term = ty, term

    def __eq__(self, o):
        return isinstance(o, Opq) and self.term == o.term

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return '%s@%s' % (self.ty, show(self.term))


class Adt:
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f=None):
        self.ty, self.var, self.f = ty, var, f or {}

    def __repr__(self):
        return '%s::%s%r' % (self.ty, self.var, self.f)


class Tup:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = list(xs)

    def __repr__(self):
        return 'Tup%r' % (self.xs,)


class Const:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


SPAN = Const('SPAN')
UNIT = Const('UNIT')
TOK = Const('TOK')      # a syn token: nothing but spans
ERR = Const('ERR')      # a syn::Error
POS = Const('POS')      # some positive integer
ANY = Const('ANY')      # unconstrained (after a report)
UNINIT = Const('UNINIT')


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return '&mut%s%s' % (self.cell, self.path)


class Clo:
    __slots__ = ('ty', 'caps', 'env')

    def __init__(self, ty, caps, env):
        self.ty, self.caps, self.env = ty, caps, env

    def __repr__(self):
        return 'Clo' + self.ty


class Fn:
    __slots__ = ('path', 'env')

    def __init__(self, path, env):
        self.path, self.env = path, env

    def __repr__(self):
        return 'Fn(%s)' % self.path


class PB:
    """a ParseBuffer: `cell` holds its cursor"""
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell


class It:
    """an iterator: the parts still to come, and the stages applied to them"""
    __slots__ = ('parts', 'stages')

    def __init__(self, parts, stages=()):
        self.parts, self.stages = tuple(parts), tuple(stages)


class Id:
    """an identifier known by its text; raw: 'no', 'yes', or 'auto' (raw
    unless the text cannot be a raw identifier)"""
    __slots__ = ('text', 'raw')

    def __init__(self, text, raw='no'):
        self.text, self.raw = text, raw

    def __repr__(self):
        return 'Id(%r,%s)' % (self.text, self.raw)


class Tk:
    """a token: ('p', op) ('g', delim, Seq) ('s', Str) string literal of a
    text, ('lit', term) an opaque literal as written, ('x', what) other"""
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return 'Tk(%s,%r,%r)' % (self.k, self.a, self.b)


class Seq:
    """kind: 'tok' (TokenStream), 'vec', 'str'"""
    __slots__ = ('kind', 'parts')

    def __init__(self, kind, parts=()):
        self.kind, self.parts = kind, tuple(parts)

    def __add__(self, o):
        return Seq(self.kind, self.parts + o.parts)

    def __repr__(self):
        return '%s[%s]' % (self.kind, ' '.join(map(repr, self.parts)))


class U:
    __slots__ = ('v', 'lab')

    def __init__(self, v, lab=()):
        self.v, self.lab = v, lab

    def __repr__(self):
        return repr(self.v)


class K:
    __slots__ = ('s', 'lab')

    def __init__(self, s, lab=()):
        self.s, self.lab = s, lab

    def __repr__(self):
        return repr(self.s)


class O:
    """an opaque subsequence; `unf`: its contract, if it is a contract's result"""
    __slots__ = ('term', 'ety', 'unf', 'lab')

    def __init__(self, term, ety=None, unf=None, lab=()):
        self.term, self.ety, self.unf, self.lab = term, ety, unf, lab

    def __repr__(self):
        return '..%s' % (show(self.term),)


class FM:
    """for every element x of S in order: fn(x); the first one uses fn0"""
    __slots__ = ('S', 'ety', 'fn', 'fn0', 'lab', 'rep')

    def __init__(self, S, ety, fn, fn0=None, lab=()):
        self.rep = None
        self.S, self.ety, self.fn, self.fn0, self.lab = S, ety, fn, fn0, lab

    def __repr__(self):
        return 'FM(%s)' % show(self.S)


class JN:
    """the elements of a vec of strings, separated"""
    __slots__ = ('seq', 'sep', 'lab')

    def __init__(self, seq, sep, lab=()):
        self.seq, self.sep, self.lab = seq, sep, lab

    def __repr__(self):
        return 'JN(%r,%r)' % (self.seq, self.sep)


def show(t):
    if isinstance(t, tuple):
        return '(' + ' '.join(show(x) for x in t) + ')'
    if isinstance(t, frozenset):
        return '{%d}' % len(t)
    return str(t)


# ---------------------------------------------------------- types and fields --

class Defs:
    """the data types of the code under verification (from its source)"""

    def __init__(self):
        self.adts = {}      # name -> [(variant or None, [(field, type)])]

    def fields(self, ty, var):
        for v, fs in self.adts.get(ty, ()):
            if v == var or var is None and v is None:
                return fs
        return None


EXTERN_ENUMS = {
    'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
    'Lit': ['Str', 'ByteStr', 'CStr', 'Byte', 'Char', 'Int', 'Float', 'Bool', 'Verbatim'],
    'PathArguments': ['None', 'AngleBracketed', 'Parenthesized'],
    'Delimiter': ['Parenthesis', 'Brace', 'Bracket', 'None'],
    'TokenTree': ['Group', 'Ident', 'Punct', 'Literal'],
    'Spacing': ['Alone', 'Joint'],
    'Level': ['Error', 'Warning'],
    'Entry': ['Vacant', 'Occupied'],
}
EXTERN_FIELDS = {
    ('PathSegment', None): [('ident', 'Ident'), ('arguments', 'PathArguments')],
    ('PathArguments', 'AngleBracketed'): [('_0', 'AngleBracketedGenericArguments')],
    ('PathArguments', 'Parenthesized'): [('_0', 'ParenthesizedGenericArguments')],
    ('AngleBracketedGenericArguments', None): [('colon2_token', 'Option<PathSep>'),
                                               ('lt_token', 'TOK'), ('args', 'GenericArgs'), ('gt_token', 'TOK')],
    ('Path', None): [('leading_colon', 'Option<PathSep>'), ('segments', 'Vec<PathSegment>')],
    ('TokenTree', 'Group'): [('_0', 'Group')],
    ('TokenTree', 'Ident'): [('_0', 'Ident')],
    ('TokenTree', 'Punct'): [('_0', 'Punct')],
    ('TokenTree', 'Literal'): [('_0', 'Literal')],
    ('Lit', 'Str'): [('_0', 'LitStr')],
    ('Lit', 'Int'): [('_0', 'LitInt')],
}
TOKENS = {'TOK', 'Brace', 'Bracket', 'Paren', 'Dot', 'DotDot', 'Pound', 'PathSep', 'Colon', 'Eq', 'Semi', 'Minus',
          'Or', 'Lt', 'Comma', 'Gt', 'slot', 'class', 'style', 'attr', 'on', 'prop', 'clone', 'use_'}
TOK_BY_NAME = {'Dot': '.', 'DotDot': '..', 'Pound': '#', 'PathSep': '::', 'Colon': ':', 'Eq': '=', 'Semi': ';',
               'Minus': '-', 'Or': '|', 'Lt': '<', 'Gt': '>', 'Comma': ',', 'OrOr': '||', 'FatArrow': '=>',
               'RArrow': '->', 'And': '&', 'AndAnd': '&&', 'Star': '*', 'Plus': '+', 'Slash': '/', 'Not': '!',
               'Question': '?', 'At': '@', 'Dollar': '$', 'Tilde': '~', 'Caret': '^', 'Percent': '%',
               'Underscore': '_', 'EqEq': '==', 'DotDotDot': '...', 'DotDotEq': '..='}

defs = Defs()


def split_gen(ty):
    """'Vec<A<B>, C>' -> ('Vec', ['A<B>', 'C'])"""
    if not ty.endswith('>') or '<' not in ty or ty.startswith('('):
        return ty, []
    i = ty.index('<')
    from mir import split_top
    return ty[:i], split_top(ty[i + 1:-1])


def norm_ty(t):
    """short name of a type: no paths, references, lifetimes"""
    import re
    t = t.strip()
    while True:
        m = re.match(r"^&('\w+ )?(mut )?", t)
        if m and m.end():
            t = t[m.end():].strip()
            continue
        break
    if t.startswith('Token!') or t.startswith('Token !'):
        return 'TOK'
    if t.startswith(('{', 'fn', 'for<', 'impl ', 'dyn ')):
        return t
    if t.startswith('('):
        from mir import split_top
        xs = split_top(t[1:-1])
        return '(' + ', '.join(norm_ty(x) for x in xs) + ')'
    if t.startswith('['):
        inner = t[1:-1].split(';')[0]
        return 'Vec<%s>' % norm_ty(inner)
    from mir import split_top
    if '<' in t and t.endswith('>'):
        i = t.index('<')
        if i == 0:
            return t
        head, args = t[:i], [a for a in split_top(t[i + 1:-1]) if not a.strip().startswith("'")]
        head = head.rstrip(':').split('::')[-1]
        args = [norm_ty(a) for a in args]
        if head == 'Box':
            return args[0]
        if head == 'Punctuated':
            return 'Vec<%s>' % args[0]
        if head == 'ParseBuffer' or not args:
            return head
        return '%s<%s>' % (head, ', '.join(args))
    return t.split('::')[-1]


def mk_opq(ty, term):
    """an arbitrary value of the type"""
    head, args = split_gen(ty)
    if head in ('Span', 'DelimSpan'):
        return SPAN
    if head in TOKENS:
        return TOK
    if head == 'Error':
        return ERR
    if head in ('String', 'str'):
        return Seq('str', [O(term)])
    if head == 'TokenStream':
        return Seq('tok', [O(term)])
    if head == 'Vec':
        return Seq('vec', [O(term, args[0])])
    if head == '()':
        return UNIT
    if ty.startswith('('):
        from mir import split_top
        return Tup([mk_opq(t, ('fld', term, None, str(i))) for i, t in enumerate(split_top(ty[1:-1]))])
    return Opq(ty, term)


def field(v, var, name):
    """a field of a value whose variant is known to be `var`"""
    if isinstance(v, Adt):
        if name not in v.f:
            raise Unsupported('field %s of %s::%s' % (name, v.ty, v.var))
        return v.f[name]
    if v is ANY:
        return ANY
    if isinstance(v, Opq):
        head, args = split_gen(v.ty)
        if head == 'Option':
            return mk_opq(args[0], ('fld', v.term, 'Some', '_0'))
        if head == 'Result' and v.term[0] == 'env':
            return mk_opq(args[0 if var == 'Ok' else 1], ('fld', v.term, var, '_0'))
        fs = EXTERN_FIELDS.get((head, var)) or defs.fields(head, var)
        if fs is None:
            raise Unsupported('field %s of %s::%s' % (name, v.ty, var))
        for n, t in fs:
            if n == name:
                return mk_opq(t, ('fld', v.term, var, name))
    raise Unsupported('field %s of %r' % (name, v))


def field_names(ty, var):
    head, _ = split_gen(ty)
    fs = EXTERN_FIELDS.get((head, var)) or defs.fields(head, var)
    return None if fs is None else [n for n, _ in fs]


def variants(ty):
    head, _ = split_gen(ty)
    if head in EXTERN_ENUMS:
        return EXTERN_ENUMS[head]
    vs = defs.adts.get(head)
    if vs is None or vs[0][0] is None:
        return None
    return [v for v, _ in vs]


# ------------------------------------------------------------------- world --

class World:
    def __init__(self, script=(), parent=None):
        self.script = script
        self.choices = []
        self.parent = parent
        self.facts = dict(parent.facts) if parent else {}
        self.by_term = {k: list(v) for k, v in parent.by_term.items()} if parent else {}
        self.anys = {k: list(v) for k, v in parent.anys.items()} if parent else {}
        self.groups = list(parent.groups) if parent else []
        self.split = dict(parent.split) if parent else {}
        self.settled = set(parent.settled) if parent else set()
        self.found = dict(parent.found) if parent else {}
        self.sfn = set(parent.sfn) if parent else set()
        self.loops = list(parent.loops) if parent else []
        self.accinfo = dict(parent.accinfo) if parent else {}
        self.depth = parent.depth + 1 if parent else 0
        self.E = []
        self.nloop = parent.nloop if parent else 0
        self.why = None
        self.names = ()
        self.env = False
        self.uid = parent.uid + 1000 if parent else 0

    # -- facts
    def subject(self, atom):
        """what an atom is about (facts about one subject interact)"""
        return atom[2] if atom[0] in ('is', 'ok') else atom[1]

    def assume(self, atom, val):
        self.facts[atom] = val
        if len(atom) > 1 and strs.has(atom[1]):
            t = strs.part(atom[1])
            if isinstance(t, tuple) and t[0] in ('sfn', 'repl', 'segs'):
                self.sfn.add(strs.root(t))
            else:
                self.sfn.add(('?',))
        if atom[0] in ('blen', 'bnd', 'teq'):
            self.sfn.add(strs.root(atom[1]))
        self.by_term.setdefault(self.subject(atom), []).append((atom, val))

    def choose(self):
        i = len(self.choices)
        if i > 400:
            raise Unsupported('too many decisions on one path')
        b = self.script[i] if i < len(self.script) else True
        self.choices.append(b)
        return b

    def decide(self, atom):
        if atom[0] in LENS and atom[1][0] in ('sub', 'rev', 'segs'):
            r = sub_len(atom, self.decide)
            if r != 'plain':
                return r
        v = self.facts.get(atom)
        if v is None:
            v = theory(self, atom)
            if v is None:
                STATS['forks'] += 1
                v = self.choose()
            else:
                STATS['implied'] += 1
                LOG.implied(self, atom, v)
            self.assume(atom, v)
        return v

    def known(self, atom):
        if atom[0] in LENS and atom[1][0] in ('sub', 'rev', 'segs'):
            r = sub_len(atom, self.known)
            if r != 'plain':
                return r
        v = self.facts.get(atom)
        if v is None:
            v = theory(self, atom)
            if v is not None:
                LOG.implied(self, atom, v)
        return v

    def fresh(self, what='u'):
        self.uid += 1
        if what == 'env':
            p = self
            while p is not None:
                p.env = True
                p = p.parent
        return (what, self.depth, self.uid)


class _Log:
    """collects the implied decisions, to be confirmed by the SMT solvers"""
    def __init__(self):
        self.queries = {}

    def implied(self, w, atom, v):
        self.queries[(related(w, atom), atom, v)] = None


def related(w, atom):
    """the facts that can bear on an atom"""
    t = w.subject(atom)
    if atom[0] in TEXT_ATOMS and strs.involved(w, atom):
        return strs.related(w, atom)
    out = list(w.by_term.get(t, ()))
    ids = []
    if atom[0] in ('is', 'ok'):
        out += w.by_term.get(('sk', t), ())
        if t[0] == 'sk':
            out += w.by_term.get(t[1], ())
        ids.append(('id', t))
    elif atom[0] == 'raw':
        ids.append(t)
    elif isinstance(t, tuple) and len(t) == 2 and t[0] in ('disp', 'unraw'):
        ids.append(t[1])
        if t[1][0] == 'id':
            out += w.by_term.get(t[1][1], ())
    if atom[0] in ('chr', 'cge') or atom[0] in CHAR_PREDS:
        if t[0] == 'c0':
            out += w.by_term.get(t[1], ())
    elif atom[0] == 'sw':
        out += w.by_term.get(('c0', t), ())
    for i in ids:
        for x in (i, ('disp', i), ('unraw', i)):
            if x != t:
                out += w.by_term.get(x, ())
    if atom[0] in ('len1', 'any'):
        out += [(('any', t, 'some'), v) for _, v in w.anys.get(t, ()) if v]
    return tuple(dict.fromkeys(a for a in out if a[0][0] != 'any' or a[0][2] in ('nonempty', 'some')))


LOG = _Log()
STATS = {'forks': 0, 'implied': 0, 'leaves': 0, 'pruned': 0, 'compare': 0}
_cur = []
MAX_LEAVES = 60000


def W():
    return _cur[-1]


def explore(run, parent=None):
    """runs `run(world)` on every path; returns the list of results"""
    out, todo = [], [()]
    while todo:
        script = todo.pop()
        w = World(script, parent)
        _cur.append(w)
        try:
            r = run(w)
            out.append(r)
            STATS['leaves'] += 1
        except Prune:
            STATS['pruned'] += 1
        except Violated as e:
            if e.checked:
                raise
            try:
                difference()
            except Prune:
                STATS['pruned'] += 1
            else:
                e.checked = True
                e.names = w.names or strs.names(w)
                raise
        finally:
            _cur.pop()
        for i in range(len(script), len(w.choices)):
            todo.append(tuple(w.choices[:i]) + (not w.choices[i],))
        if len(out) > MAX_LEAVES:
            raise Unsupported('too many paths')
    return out


# -- parts of a sequence: sub(B, i, j) is B without the first i and last j
# elements, rev(S) is S backwards; (e0 B), (ei B n), (el B n) are elements

LENS = ('len1', 'lenge', 'any')


def base_of(S):
    """(base, elements missing at the front, at the back, reversed?)"""
    rev = False
    if S[0] == 'rev':
        rev, S = True, S[1]
    if S[0] == 'sub':
        return S[1], S[2], S[3], rev
    return S, 0, 0, rev


def sub(S, i, j):
    B, a, b, rev = base_of(S)
    if rev:
        i, j = j, i
    a, b = a + i, b + j
    r = ('sub', B, a, b) if a or b else B
    return ('rev', r) if rev else r


def rev(S):
    return S[1] if S[0] == 'rev' else ('rev', S)


def sub_len(atom, ask):
    """an atom about the length of a part, in terms of the whole"""
    if atom[1][0] == 'segs':
        if atom[0] == 'any' or atom[0] == 'lenge' and atom[2] < 2:
            return True if len(atom) == 3 else 'plain'
        if atom[0] == 'lenge' and atom[2] > 2:
            return 'plain'
        v = ask(('cont',) + atom[1][1:])
        return v if v is None or atom[0] == 'lenge' else not v
    B, i, j, _ = base_of(atom[1])
    k = i + j
    if atom[0] == 'any':
        if len(atom) != 3 or atom[2] != 'nonempty':
            raise Unsupported('atom %r' % (atom,))
        return len_ge(B, k + 1, ask)
    if atom[0] == 'lenge':
        return len_ge(B, k + atom[2], ask)
    if not k:
        return ask(('len1', B))
    a = len_ge(B, k + 1, ask)
    if not a:
        return a
    b = len_ge(B, k + 2, ask)
    return None if b is None else not b


def len_ge(B, n, ask):
    if n <= 0:
        return True
    if n == 1:
        return ask(('any', B, 'nonempty'))
    a = len_ge(B, 1, ask)
    if not a:
        return a
    b = ask(('len1', B))
    if n == 2 or b:
        return None if b is None else not b
    v = ask(('lenge', B, n))
    return None if b is None and v is None else v


def element(S, ety, i):
    """the element of the base of S at position i (from the end if i < 0)"""
    B, _, _, _ = base_of(S)
    if i == 0 and B[0] == 'chars':
        return mk_opq(ety, ('c0', B[1]))
    if i == 0 and B[0] == 'segs':
        return Seq('str', [O(('sfn', 'seg0') + B[1:])])
    return mk_opq(ety, ('e0', B) if i == 0 else ('ei', B, i) if i > 0 else ('el', B, -i - 1))


def split(S, ety, front):
    """S is known not to be empty: gives its first (last) element a name"""
    w = W()
    B, i, j, r = base_of(S)
    I, J = w.split.get(B, (0, 0))
    if (i, j) != (I, J):
        raise Unsupported('a part that is split already')
    if front == r:
        e, new = element(B, ety, -J - 1), (I, J + 1)
    else:
        e, new = element(B, ety, I), (I + 1, J)
    old = sub(B, I, J)
    mid = sub(B, *new)
    hyps = list(w.anys.get(old, ()))
    w.split[B] = new
    for fn, val in hyps:
        keep, w.E = w.E, []
        try:
            if val:
                if not fn(e) and not decide_any(mid, ety, fn):
                    raise Prune()
            else:
                if fn(e):
                    raise Prune()
                w.anys.setdefault(mid, []).append((fn, False))
        finally:
            w.E = keep


class Rest:
    """what follows the first element x of a part with pred(x)"""
    __slots__ = ('part', 'S', 'ety', 'x', 'pred', 'lab')

    def __init__(self, part, S, ety, x, pred):
        self.part, self.S, self.ety, self.x, self.pred, self.lab = part, S, ety, x, pred, ()

    def force(self):
        post = find(self.S, self.ety, self.x, self.pred)
        if isinstance(self.part, FM):
            return FM(post, self.ety, self.part.fn, None, self.part.lab)
        return O(post, self.ety, None, self.part.lab)


def find(S, ety, x, pred):
    """S is (pre S) x (post S), where no element before x satisfies pred; what
    comes after x.  (Backwards: no element of (post S).)"""
    w = W()
    r = S[0] == 'rev'
    S = S[1] if r else S
    pre, post = ('pre', S), ('post', S)
    no, rest = (post, ('rev', pre)) if r else (pre, post)
    old = w.found.get(S)
    if old is not None:
        if old[0] is x:
            return rest
        raise Unsupported('two searches of one sequence')
    if S[0] == 'groups' or unsplit(S, ety):
        raise Unsupported('the rest after a search')
    hyps = list(w.anys.get(S, ()))
    w.found[S] = (x, pre, post)
    ETY[pre] = ETY[post] = ety
    w.anys.setdefault(no, []).append((pred, False))
    keep, w.E = w.E, []
    try:
        for fn, val in hyps:
            if not val:
                if fn(x):
                    raise Prune()
                for t in (pre, post):
                    w.anys.setdefault(t, []).append((fn, False))
        for fn, val in hyps:
            if val and not (fn(x) or decide_any(pre, ety, fn) or decide_any(post, ety, fn)):
                raise Prune()
    finally:
        w.E = keep
    return rest


def unsplit(S, ety):
    """the parts of S if some of its elements have names, or None"""
    r = S[0] == 'rev'
    T = S[1] if r else S
    f = W().found.get(T)
    if f:
        out = [O(f[1], ety), U(f[0]), O(f[2], ety)]
        return [O(rev(q.term), ety) if isinstance(q, O) else q for q in reversed(out)] if r else out
    B, i, j, r = base_of(S)
    n = W().split.get(B)
    if n is None or n == (i, j) or B[0] == 'groups':
        return None
    I, J = n
    out = [U(element(B, ety, k)) for k in range(i, I)]
    out.append(O(sub(B, I, J), ety))
    out += [U(element(B, ety, -k - 1)) for k in range(J - 1, j - 1, -1)]
    if r:
        out = [O(rev(q.term), ety) if isinstance(q, O) else q for q in reversed(out)]
    return out


def rev_parts(parts):
    out = []
    for p in reversed(flat(parts)):
        if isinstance(p, (O, FM)) and base_of(p.S if isinstance(p, FM) else p.term)[0][0] == 'groups':
            raise Unsupported('a map backwards')
        if isinstance(p, O) and p.ety:
            p = O(rev(p.term), p.ety, None, p.lab)
        elif isinstance(p, FM) and not p.fn0:
            p = FM(rev(p.S), p.ety, lambda x, f=p.fn: Seq('vec', rev_parts(f(x).parts)), None, p.lab)
        elif not isinstance(p, U):
            raise Unsupported('a computed sequence backwards')
        out.append(p)
    return out


def split_at(parts, front=True):
    """decides whether there is an element at the front (back); splits it off:
    (element, other parts) or None"""
    parts = list(parts)
    while True:
        parts = flat(parts)
        if not parts:
            return None
        p = parts[0 if front else -1]
        if isinstance(p, U):
            return p.v, parts[1:] if front else parts[:-1]
        if isinstance(p, O) and p.ety and p.ety not in ('group', 'char', 'u8', 'str'):
            if decide_any(p.term, p.ety, lambda x: True, 'nonempty'):
                if known_len1(p.term):
                    continue
                split(p.term, p.ety, front)
        elif isinstance(p, FM) and not p.fn0 and p.S[0] != 'groups' and p.ety not in ('char', 'u8', 'str'):
            def one(x):
                q = flat(p.fn(x).parts)
                return len(q) == 1 and isinstance(q[0], U)
            w = W()
            keep, w.E = w.E, []
            try:
                if not all(forall(p.S, p.ety, one)):
                    raise Unsupported('the first element of a filtered sequence')
            finally:
                w.E = keep
            if decide_any(p.S, p.ety, lambda x: True, 'nonempty'):
                if known_len1(p.S):
                    continue
                split(p.S, p.ety, front)
        else:
            raise Unsupported('the first element of a computed sequence')


def bound(S, ety, w, tag='bv'):
    t = (tag, S, w.depth)
    if S[0] == 'groups':
        return Tup([Opq('Ident', ('gname', t)), mk_opq('Vec<TokenStream>', ('gvals', t))])
    return mk_opq(ety, t)


def known_len1(S):
    w = W()
    if w.known(('len1', S)) is not True:
        return False
    if S[0] in ('sub', 'rev') and S not in w.settled:
        w.settled.add(S)
        settle(S)
    return True


ETY = {}


def settle(S):
    """what is known about the elements is known about the only one"""
    w = W()
    S = S[1] if S[0] == 'rev' else S
    for fn, val in list(w.anys.get(S, ())):
        keep, w.E = w.E, []
        r = fn(first_of(S, ETY[S]))
        w.E = keep
        if bool(r) != val:
            raise Prune()


def first_of(S, ety):
    """the only element of S"""
    B, i, j, r = base_of(S)
    I, J = W().split.get(B, (0, 0))
    return element(B, ety, -j - 1 if I <= i and J > j else i)


def forall(S, ety, body, tag='bv'):
    """body(x) for a generic element x of S, in child worlds that know what
    holds for all the elements of S; the list of results"""
    parent = W()
    S = S[1] if S[0] == 'rev' else S
    ps = unsplit(S, ety)
    if ps:
        out = []
        for p in ps:
            out += explore(lambda w, p=p: body(p.v), parent) if isinstance(p, U) else forall(p.term, ety, body, tag)
        return out
    if S[0] == 'sub' and parent.known(('any', S, 'nonempty')) is False:
        return []

    def run(w):
        if known_len1(S) and S[0] != 'groups':
            x = first_of(S, ety)
        else:
            x = bound(S, ety, w, tag)
            if S[0] == 'groups':
                w.assume(('any', ('gvals', (tag, S, w.depth)), 'nonempty'), True)
        for fn, val in list(w.anys.get(S, ())):
            if not val:
                keep, w.E = w.E, []
                if fn(x):
                    raise Prune()
                w.E = keep
        w.E = []
        return body(x)
    return explore(run, parent)


def decide_any(S, ety, fn, name=None):
    """is there an element x of S with fn(x)?"""
    w = W()
    S = S[1] if S[0] == 'rev' else S
    if S[0] == 'segs' and name == 'nonempty':
        return True
    if S[0] == 'tts':
        if S[1][0] == 'rest':
            ne = not w.decide(('is', 'eof', S[1][1]))
        else:
            ne = w.decide(('any', S[1], 'nonempty'))
        if not ne or name == 'nonempty':
            return ne
    if strs.has(S):
        w.sfn.add(strs.root(strs.part(S)))
    ps = unsplit(S, ety)
    if ps:
        return any(fn(p.v) if isinstance(p, U) else decide_any(p.term, ety, fn, name) for p in ps)
    ETY[S] = ety
    if S[0] == 'sub':
        if name == 'nonempty':
            return w.decide(('any', S, 'nonempty'))
        if not w.decide(('any', S, 'nonempty')):
            return False
    if known_len1(S) and S[0] != 'groups':
        return fn(first_of(S, ety))
    if name == 'nonempty':
        v = w.known(('any', S, 'nonempty'))
        if v is not None:
            return v
    if S[0] == 'chars' and ety in ('char', 'u8'):
        cs = char_set(S, fn, ety)
        if cs is not None:
            return any(w.decide(('cont', S[1], c)) for c in cs)
    res = forall(S, ety, fn)
    if not any(res):
        return False
    for h, val in list(w.anys.get(S, ())):
        if val:
            def imp(x, h=h):
                if not h(x):
                    raise Prune()
                return fn(x)
            if all(forall(S, ety, imp)):
                return True
    v = w.choose()
    w.anys.setdefault(S, []).append((fn, v))
    if name == 'nonempty':
        w.assume(('any', S, 'nonempty'), v)
    return v


def char_set(S, fn, ety='char'):
    """the finite set of characters with fn, if it is one"""
    def row(x):
        v = bool(fn(x))
        return v, [(a, b) for a, b in W().facts.items() if len(a) > 1 and a[1] == x.term]
    rows = forall(S, ety, row)
    if any(a[0] in ('chr', 'cge') and not a[2].isascii() for _, fs in rows for a, _ in fs):
        return None
    out = []
    for ch in CHARS:
        vs = {v for v, fs in rows if all(char_pred(a, ch) in (b, None) for a, b in fs)}
        if len(vs) > 1:
            return None
        if True in vs:
            if not ch.isascii():
                return None
            out.append(ch)
    return out if len(out) <= 4 else None


def e_entries(body):
    """runs body() and returns what it reports, without reporting it"""
    w = W()
    keep, w.E = w.E, []
    try:
        body()
        return w.E
    finally:
        w.E = keep


def e_true(entries):
    """is any of the reports made?  (decides them in order)"""
    entries = list(entries)
    for e in entries:
        if e[0] == 'T':
            return e
    for e in entries:
        if e[0] == 'A':
            if W().decide(e[1]):
                return e
        else:
            _, S, ety, fn, lab = e
            if decide_any(S, ety, lambda x, fn=fn: bool(e_true(e_entries(lambda: fn(x))))):
                return e
    return None


def e_any(S, ety, fn, lab=()):
    """adds the reports of fn(x) for every element x of S"""
    res = forall(S, ety, lambda x: e_entries(lambda: fn(x)))
    if any(res):
        W().E.append(('N', S, ety, fn, lab))


# -------------------------------------------------------------- sequences --

def flat(parts):
    """drops what is known to be empty, expands what is known"""
    out = []
    for p in parts:
        if isinstance(p, Rest):
            out += flat([p.force()])
            continue
        if isinstance(p, K):
            if not p.s:
                continue
            if out and isinstance(out[-1], K):
                out[-1] = K(out[-1].s + p.s, p.lab)
                continue
        elif isinstance(p, FM):
            if p.ety == 'char' and p.S[0] == 'chars' and not p.fn0:
                q = replaced(p)
                if q is not None:
                    out.append(q)
                    continue
            us = unsplit(p.S, p.ety)
            if us:
                if p.fn0:
                    if not isinstance(us[0], U):
                        raise Unsupported('a separated list split at its end')
                    us[0] = (us[0], p.fn0)
                for q in us:
                    q, fn = q if isinstance(q, tuple) else (q, p.fn)
                    if isinstance(q, O):
                        out += flat([FM(q.term, p.ety, fn, None, p.lab)])
                        continue
                    w = W()
                    keep, w.E = w.E, []
                    out += flat(fn(q.v).parts)
                    w.E = keep
                continue
            if W().known(('any', p.S, 'nonempty')) is False:
                continue
            if known_len1(p.S) and p.S[0] != 'groups':
                w = W()
                keep, w.E = w.E, []
                sub = (p.fn0 or p.fn)(first_of(p.S, p.ety))
                w.E = keep
                for q in flat(sub.parts):
                    if isinstance(q, K) and out and isinstance(out[-1], K):
                        out[-1] = K(out[-1].s + q.s, q.lab)
                    else:
                        out.append(q)
                continue
        elif isinstance(p, JN):
            q = joined(p)
            if q is not None:
                out += flat(q)
                continue
        elif isinstance(p, O):
            us = p.ety and unsplit(p.term, p.ety)
            if us:
                out += flat(us)
                continue
            if W().known(('any', p.term, 'nonempty')) is False:
                continue
            if p.ety and known_len1(p.term):
                out.append(U(first_of(p.term, p.ety)))
                continue
        out.append(p)
    return out


def joined(p):
    """a joined text with a known element; None if there is none"""
    ps = [q for q in flat(p.seq.parts) if not everywhere_empty(q)]
    if not ps:
        return []
    k = next((i for i, q in enumerate(ps) if isinstance(q, U)), None)
    if k is None:
        return None

    def text(v):
        if isinstance(v, str):
            return (K(v),)
        if not isinstance(v, Seq):
            raise Unsupported('a joined value %r' % (v,))
        return v.parts
    out = []
    for i, q in enumerate(ps):
        if isinstance(q, U):
            out += (p.sep.parts if i > k else ()) + text(q.v) + (p.sep.parts if i < k else ())
            continue
        if isinstance(q, O):
            q = as_fm(q)
        if not isinstance(q, FM) or q.fn0:
            raise Unsupported('a joined value %r' % (q,))

        def fn(x, f=q.fn, after=i > k):
            r = []
            for e in flat(f(x).parts):
                if not isinstance(e, U):
                    raise Unsupported('a joined value %r' % (e,))
                r += p.sep.parts + text(e.v) if after else text(e.v) + p.sep.parts
            return Seq('str', r)
        out.append(FM(q.S, q.ety, fn, None, p.lab))
    return out


def replaced(p):
    """a loop over the characters of a text that keeps them, or replaces some
    of them, is that replacement"""
    if p.rep is None:
        p.rep = replacements(p)
    if p.rep is False:
        return None
    t = p.S[1]
    for a, b in p.rep:
        if W().known(('cont', t, a)) is not False:
            t = ('repl', t, a, b)
    return O(t, None, None, p.lab)


def replacements(p):

    def body(x):
        ps = flat(p.fn(x).parts)
        if len(ps) == 1 and (isinstance(ps[0], O) and ps[0].term == ('chr1', x.term) or
                             isinstance(ps[0], U) and isinstance(ps[0].v, Opq) and ps[0].v.term == x.term):
            return 'same', None, None
        if not all(isinstance(q, K) or isinstance(q, U) and isinstance(q.v, str) for q in ps):
            return None
        text = ''.join(q.s if isinstance(q, K) else q.v for q in ps)
        for a, v in W().facts.items():
            if a[0] == 'chr' and a[1] == x.term and v:
                return 'rep', a[2], text
        return None
    w = W()
    keep, w.E = w.E, []
    try:
        rs = forall(p.S, p.ety, body)
    except (Unsupported, NeedFirst):
        return False
    finally:
        w.E = keep
    if None in rs:
        return False
    rep = sorted({r[1:] for r in rs if r[0] == 'rep' and r[1] != r[2]})
    if len({a for a, _ in rep}) != len(rep) or any(a in b for _, b in rep for a, _ in rep):
        return False
    return rep


def as_fm(p):
    if isinstance(p, O) and p.ety:
        return FM(p.term, p.ety, lambda x: Seq('vec', [U(x)]), None, p.lab)
    return p


def skey(s):
    """a hashable key of a string without loops"""
    out = []
    for p in flat(s.parts):
        if isinstance(p, K):
            out.append(p.s)
        elif isinstance(p, O):
            out.append(p.term)
        elif isinstance(p, U) and isinstance(p.v, Opq):
            out.append(('chr', p.v.term))
        else:
            raise Unsupported('text with a loop')
    r = tuple(out)
    if len(r) == 1 and isinstance(r[0], tuple):
        k = known_text(r[0])
        return r[0] if k is None else (k,)
    return r


def known_text(t):
    """the constant an opaque text is known to be"""
    for a, v in text_facts(W(), t):
        if a[0] == 'streq' and v:
            return a[2]
    return None


def const_of(s):
    k = skey(s)
    if k == ():
        return ''
    if len(k) == 1 and isinstance(k[0], str):
        return k[0]
    return None


def seq_nonempty(s):
    parts = flat(s.parts)
    for p in parts:
        if isinstance(p, (U, K)):
            return True
    for p in parts:
        if isinstance(p, O):
            if p.term[0] == 'acc':
                v = W().accinfo.get(p.term)
                if v is None:
                    raise NeedFirst()
                if v:
                    return True
                continue
            if s.kind == 'str':
                if W().decide(('ne', p.term)):
                    return True
            elif p.ety:
                if decide_any(p.term, p.ety, lambda x: True, 'nonempty'):
                    return True
            elif W().decide(('any', p.term, 'nonempty')):
                return True
        elif isinstance(p, FM):
            if p.fn0:
                raise Unsupported('emptiness of a separated list')
            if decide_any(p.S, p.ety, lambda x, p=p: seq_nonempty(p.fn(x))):
                return True
        elif isinstance(p, JN):
            raise Unsupported('emptiness of a joined text')
    return False


def seq_len1(s):
    parts = flat(s.parts)
    if all(isinstance(p, U) for p in parts):
        return len(parts) == 1
    if len(parts) == 1 and isinstance(parts[0], O) and parts[0].ety:
        return decide_len1(parts[0].term, parts[0].ety)
    raise Unsupported('length of a computed sequence')


def decide_len1(S, ety):
    w = W()
    if S[0] in ('sub', 'rev'):
        w.decide(('len1', S))
        return known_len1(S)
    new = ('len1', S) not in w.facts
    v = w.decide(('len1', S))
    if v and new and S[0] != 'groups':
        # what is known about the elements is known about this one
        for fn, val in list(w.anys.get(S, ())):
            keep, w.E = w.E, []
            r = fn(first_of(S, ety))
            w.E = keep
            if bool(r) != val:
                raise Prune()
    return v


def everywhere_empty(p):
    """is this loop's result empty whatever the element?"""
    if not isinstance(p, FM):
        return False
    res = forall(p.S, p.ety, lambda x: seq_empty(p.fn(x)) and (p.fn0 is None or seq_empty(p.fn0(x))))
    return all(res)


def seq_empty(s):
    for p in flat(s.parts):
        if isinstance(p, FM):
            if not everywhere_empty(p):
                return False
        else:
            return False
    return True


# ---------------------------------------------------------------- equality --

def contradictory(w):
    """has the case analysis reached a path that cannot be taken?"""
    k = frozenset((a, v) for a, v in w.facts.items() if strs.usable(a))
    if k not in CONTRA:
        CONTRA[k] = strs.unsat(sorted(k, key=repr))
    return CONTRA[k]


CONTRA = {}


def difference():
    """a difference between code and contract is at hand: does it count?"""
    w = W()
    if contradictory(w):
        raise Prune()
    if w.sfn and not strs.possible(w):
        raise Unsupported('functions of texts: no actual name found for a difference')


def mismatch(msg, lab=()):
    difference()
    w = W()
    w.names = strs.names(w)
    p = w.parent
    while p is not None:
        p.names = w.names
        p = p.parent
    w.why = (msg, tuple(lab))
    p = w.parent
    while p is not None:
        if p.why is None or True:
            p.why = (msg, tuple(lab))
        p = p.parent
    return False


def sum_text(parts):
    """a text as a list of constants and terms, None if it has loops"""
    out = []
    for p in parts:
        if isinstance(p, K):
            out.append(p.s)
        elif isinstance(p, O) and not p.ety and not p.unf:
            out.append(p.term)
        else:
            return None
    return out


def part_show(p):
    return repr(p)[:160]


def all_trees(p):
    return FM(('tts', p.term), 'TokenTree', lambda x: Seq('tok', [U(x)]))


def eq_seq(a, b, lab=()):
    A, B = list(flat(a.parts)), list(flat(b.parts))
    cur = lab
    STATS['compare'] += 1
    while A or B:
        x = A[0] if A else None
        y = B[0] if B else None
        if y is not None and getattr(y, 'lab', None):
            cur = y.lab
        bad = None
        if x is not None and y is not None:
            if isinstance(x, O) and x.ety and isinstance(y, FM):
                x = as_fm(x)
            if isinstance(y, O) and y.ety and isinstance(x, FM):
                y = as_fm(y)
            # tokens, token tree by token tree
            if isinstance(x, O) and isinstance(y, U) and not x.ety and known_len1(('tts', x.term)):
                A[0:1] = [U(first_of(('tts', x.term), 'TokenTree'), x.lab)]
                continue
            if isinstance(y, O) and isinstance(x, U) and not y.ety and known_len1(('tts', y.term)):
                B[0:1] = [U(first_of(('tts', y.term), 'TokenTree'), y.lab)]
                continue
            if isinstance(x, O) and isinstance(y, FM) and y.S == ('tts', x.term):
                x = all_trees(x)
            if isinstance(y, O) and isinstance(x, FM) and x.S == ('tts', y.term):
                y = all_trees(y)
            if isinstance(x, K) and isinstance(y, K):
                n = min(len(x.s), len(y.s))
                if x.s[:n] == y.s[:n]:
                    A[0:1] = [K(x.s[n:], x.lab)] if x.s[n:] else []
                    B[0:1] = [K(y.s[n:], y.lab)] if y.s[n:] else []
                    continue
            elif isinstance(x, U) and isinstance(y, U):
                if eq(x.v, y.v, cur):
                    A.pop(0)
                    B.pop(0)
                    continue
                bad = W().why
            elif isinstance(x, K) != isinstance(y, K) and isinstance(x, (K, O)) and isinstance(y, (K, O)):
                k = known_text((x if isinstance(x, O) else y).term)
                if k is not None:
                    if isinstance(x, O):
                        A[0:1] = [K(k, x.lab)] if k else []
                    else:
                        B[0:1] = [K(k, y.lab)] if k else []
                    continue
            elif isinstance(x, O) and isinstance(y, O):
                if x.term == y.term or skey1(x) == skey1(y):
                    A.pop(0)
                    B.pop(0)
                    continue
            elif isinstance(x, FM) and isinstance(y, FM) and x.S == y.S:
                if eq_fm(x, y, cur):
                    A.pop(0)
                    B.pop(0)
                    continue
                bad = W().why
            elif isinstance(x, JN) and isinstance(y, JN):
                if eq_seq(x.seq, y.seq, cur) and eq_seq(x.sep, y.sep, cur):
                    A.pop(0)
                    B.pop(0)
                    continue
                bad = W().why
        if any(isinstance(p, (O, FM)) and strs.has(p.S if isinstance(p, FM) else p.term) for p in (x, y)):
            xs, ys = sum_text(A), sum_text(B)
            if xs is None or ys is None:
                raise Unsupported('comparison of a computed text')
            r = strs.compare(W(), xs, ys)
            if r is True:
                return True
            if r is None:
                raise Unsupported('functions of texts: no actual name found for a difference')
            return mismatch('the code has %s where the contract has %s, for %r' % (
                'nothing' if x is None else part_show(x), 'nothing' if y is None else part_show(y), r), cur or getattr(x, 'lab', ()))
        if x is not None and everywhere_empty(x):
            A.pop(0)
            continue
        if y is not None and everywhere_empty(y):
            B.pop(0)
            continue
        if x is not None and isinstance(x, O) and x.unf:
            A[0:1] = flat(unfold(x).parts)
            continue
        if y is not None and isinstance(y, O) and y.unf:
            B[0:1] = flat(unfold(y).parts)
            continue
        if bad:
            return mismatch(bad[0], bad[1] or cur)
        return mismatch('the code has %s where the contract has %s' % (
            'nothing' if x is None else part_show(x), 'nothing' if y is None else part_show(y)),
            cur or getattr(x, 'lab', ()))
    return True


def skey1(o):
    """an opaque text that is known"""
    k = known_text(o.term)
    return o.term if k is None else k


def unfold(o):
    w = W()
    keep, w.E = w.E, []
    try:
        return o.unf()
    finally:
        w.E = keep


def eq_fm(x, y, lab=()):
    def body(e):
        if x.fn0 or y.fn0:
            if not eq_seq((x.fn0 or x.fn)(e), (y.fn0 or y.fn)(e), lab):
                return False
        W().E = []
        return eq_seq(x.fn(e), y.fn(e), lab)
    return all(forall(x.S, x.ety, body))


KEYWORDS = frozenset('''_ as break const continue crate else enum extern false fn for if impl in let loop match mod move
mut pub ref return Self self static struct super trait true type unsafe use where while abstract async await become box
do dyn final gen macro override priv try typeof unsized virtual yield'''.split())
SPECIAL = ('_', 'self', 'Self', 'super', 'crate')


def id_raw(i):
    """resolves 'auto'"""
    if i.raw != 'auto':
        return i.raw
    return 'no' if any(str_is(i.text, s) for s in SPECIAL) else 'yes'


def eq_id(a, b, lab):
    if not eq_seq(a.text, b.text, lab):
        return False
    if a.raw == b.raw:
        return True
    ra, rb = id_raw(a), id_raw(b)
    if ra == rb or not decide_str('inset', b.text, KEYWORDS):
        return True         # `r#x` is the identifier `x`, unless that is a keyword
    return mismatch('raw and plain identifier %r' % (a,), lab)


def to_id(v):
    if isinstance(v, Opq) and v.ty == 'Ident':
        return None
    return v


def eq(a, b, lab=()):
    """is the code's value `a` equal to the contract's value `b`?"""
    if a is b:
        return True
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.kind != b.kind and 'any' not in (a.kind, b.kind):
            return mismatch('%s / %s' % (a.kind, b.kind), lab)
        return eq_seq(a, b, lab)
    if isinstance(a, Const) and isinstance(b, Const):
        return a is b or mismatch('%r / %r' % (a, b), lab)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, int) and isinstance(b, int):
        return (a == b and type(a) is type(b)) or mismatch('%r / %r' % (a, b), lab)
    if isinstance(a, Tk) and isinstance(b, Tk):
        if a.k == b.k:
            if a.k == 'g' and a.a == b.a:
                return eq_seq(a.b, b.b, lab)
            if a.k == 's':
                return eq_seq(a.a, b.a, lab)
            if a.k in ('p', 'lit', 'x') and a.a == b.a:
                return True
        return mismatch('token %s instead of %s' % (part_show(a), part_show(b)), lab)
    if isinstance(a, Id) and isinstance(b, Id):
        return eq_id(a, b, lab)
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a.term == b.term:
            return True
        head, _ = split_gen(a.ty)
        va = variants(head)
        if va and split_gen(b.ty)[0] == head:
            v1, v2 = variant(a), variant(b)
            if v1 != v2:
                return mismatch('%s instead of %s' % (v1, v2), lab)
            names = field_names(a.ty, v1) if head not in ('Option',) else (['_0'] if v1 == 'Some' else [])
            if names is not None and len(show(a.term)) < 2000:
                return all(eq(field(a, v1, n), field(b, v1, n), lab) for n in names) or \
                    mismatch('%r instead of %r' % (a, b), lab)
        return mismatch('%r instead of %r' % (a, b), lab)
    if isinstance(a, (Adt, Opq)) and isinstance(b, (Adt, Opq)):
        v1, v2 = variant(a), variant(b)
        if v1 != v2:
            return mismatch('%s instead of %s' % (v1, v2), lab)
        names = list((b if isinstance(b, Adt) else a).f)
        for n in names:
            if not eq(field(a, v1, n), field(b, v2, n), lab):
                return False
        return True
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
        return all(eq(x, y, lab) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Opq) and isinstance(b, Id) or isinstance(a, Id) and isinstance(b, Opq):
        o, i = (a, b) if isinstance(a, Opq) else (b, a)
        raw = W().decide(('raw', o.term))
        if raw:
            return eq_id(Id(Seq('str', [O(('unraw', o.term))]), 'yes'), i, lab)
        return eq_id(Id(Seq('str', [O(('unraw', o.term))]), 'no'), i, lab)
    if a is ANY or b is ANY:
        return mismatch('an unspecified value', lab)
    return mismatch('%s instead of %s' % (part_show(a), part_show(b)), lab)


def variant(v):
    """the variant of an enum value (None for a struct)"""
    if isinstance(v, Adt):
        return v.var
    if isinstance(v, Opq):
        vs = variants(v.ty)
        if not vs:
            return None
        for x in vs[:-1]:
            if W().decide(('isv', v.term, x, tuple(vs))):
                return x
        return vs[-1]
    if v is ANY:
        raise Unsupported('variant of an unspecified value')
    raise Unsupported('variant of %r' % (v,))


def is_variant(v, name):
    if isinstance(v, Adt):
        return v.var == name
    vs = variants(v.ty)
    t = v.term
    if t[0] == 'tt':
        return tree_kind(t[1]) == name
    if t[0] == 'delim' and t[1][0] == 'tt':
        # groups without delimiters do not occur (DESIGN.md, 2)
        return name == DELIMS[tree_group(t[1][1])]
    return W().decide(('isv', v.term, name, tuple(vs)))


DELIMS = {'Brace': 'Brace', 'Paren': 'Parenthesis', 'Bracket': 'Bracket'}


def tree_group(c):
    for k in ('Brace', 'Paren', 'Bracket'):
        if W().decide(('is', k, c)):
            return k
    return None


def tree_kind(c):
    """what is the token tree at a cursor?"""
    w = W()
    if w.decide(('is', 'IdentAny', c)):
        return 'Ident'
    if tree_group(c):
        return 'Group'
    # a literal with its sign is two token trees
    if not w.decide(('is', '-', c)) and w.decide(('is', 'Lit', c)):
        return 'Literal'
    return 'Punct'


# ------------------------------------------------------------ text theory --

def str_pred(atom, s):
    """the value of an atom about a text, for the text s"""
    k = atom[0]
    if k == 'streq':
        return s == atom[2]
    if k == 'cont':
        return atom[2] in s
    if k == 'sw':
        return s.startswith(atom[2])
    if k == 'ew':
        return s.endswith(atom[2])
    if k == 'inset':
        return s in atom[2]
    if k == 'ne':
        return s != ''
    if k == 'blen':
        return len(s.encode()) >= atom[2]
    if k == 'bnd':
        return boundary(s, atom[2])
    return None


def boundary(s, n):
    """is there a character boundary after n bytes of a text?"""
    b = s.encode()
    return n == len(b) or n < len(b) and b[n] & 0xc0 != 0x80


TEXT_ATOMS = ('streq', 'cont', 'sw', 'ew', 'inset', 'ne', 'blen', 'bnd', 'teq')


def decide_str(kind, s, *args):
    """an atom about a text"""
    k = skey(s)
    if isinstance(k, tuple) and all(isinstance(x, str) for x in k):
        return str_pred((kind, k) + args, ''.join(k))
    if kind == 'ne' and isinstance(k, tuple) and any(isinstance(x, str) and x for x in k):
        return True
    return W().decide((kind, k) + args)


def str_is(s, const):
    return decide_str('streq', s, const)


RUST_IDENT = __import__('re').compile(r'[A-Za-z_]\w*$')


def shape(t, s):
    """could the text term t be the constant s?"""
    h = t[0] if t else None
    if h in ('unraw', 'disp'):
        if h == 'disp' and s.startswith('r#'):
            s = s[2:]
        return s.isidentifier() or s == '_'
    if h == 'valid':
        return True
    return True


def raw_known(w, t):
    """is the identifier t a raw one, if known"""
    if t[0] == 'pid' and t[1][0] == 'fld' and t[1][2:] == ('Component', '_0'):
        return False        # an invariant of Tag (see `invariant`)
    v = w.facts.get(('raw', t))
    if v is not None:
        return v
    for a, v in w.by_term.get(('disp', t), ()):
        if a[0] == 'streq' and v:
            return a[2].startswith('r#')
    return None


def text_facts(w, t):
    """the facts about a text, and what they are about it"""
    facts = list(w.by_term.get(t, ()))
    if isinstance(t, tuple) and len(t) == 2 and t[0] in ('disp', 'unraw'):
        raw = raw_known(w, t[1])
        other = ('unraw' if t[0] == 'disp' else 'disp', t[1])
        if raw is not None:
            for a, v in w.by_term.get(other, ()):
                if not raw:
                    facts.append(((a[0], t) + a[2:], v))
                elif a[0] == 'streq':
                    s = 'r#' + a[2] if t[0] == 'disp' else a[2][2:]
                    if t[0] == 'disp' or a[2].startswith('r#'):
                        facts.append((('streq', t, s), v))
        if t[0] == 'disp' and t[1][0] == 'id':
            lit = w.facts.get(('is', 'Lit', t[1][1]))
            if lit is not None:
                facts.append((('inset', t, frozenset(('true', 'false'))), lit))
    return facts


def text_theory(w, atom):
    k, t = atom[0], atom[1]
    facts = text_facts(w, t)
    for a, v in facts:
        if a[0] == 'streq' and v:
            return str_pred(atom, a[2])
        if a[0] == 'inset' and v:
            r = {str_pred(atom, x) for x in a[2] if all(
                str_pred(b, x) in (u, None) for b, u in facts)}
            if len(r) == 1:
                return r.pop()
    if k == 'streq':
        if not shape(t, atom[2]):
            return False
        for a, v in facts:
            p = str_pred(a, atom[2])
            if p is not None and p != v:
                return False
    if k == 'inset':
        for a, v in facts:
            if a[0] == 'inset' and v and a[2] <= atom[2]:
                return True
        if all(any(str_pred(a, x) not in (v, None) for a, v in facts) for x in atom[2]):
            return False
    if k == 'ne':
        if t and t[0] in ('unraw', 'disp', 'kname', 'display', 'chr1'):
            return True
        if t and t[0] == 'fld' and t[3] == 'repr':
            return True
        for a, v in facts:
            if str_pred(a, '') not in (v, None):
                return True
    if k == 'blen':
        for a, v in facts:
            if a[0] == 'blen' and (v and a[2] >= atom[2] or not v and a[2] <= atom[2]):
                return v
            if a[0] in ('sw', 'ew', 'cont') and v and len(a[2].encode()) >= atom[2]:
                return True
    if k == 'sw' and len(atom[2]) > 0:
        c0 = [(a, v) for a, v in w.by_term.get(('c0', t), ())]
        if any(char_pred(a, atom[2][0]) not in (None, v) for a, v in c0):
            return False
        if len(atom[2]) == 1 and any(a[0] == 'chr' and a[2] == atom[2] and v for a, v in c0):
            return True
    if k == 'sw' or k == 'cont':
        for a, v in facts:
            if a[0] == 'sw' and v and k == 'cont' and atom[2] in a[2]:
                return True
            if a[0] == 'sw' and v and k == 'sw' and a[2].startswith(atom[2]):
                return True
            if a[0] == 'sw' and v and k == 'sw' and not atom[2].startswith(a[2]):
                return False
            if a[0] == 'cont' and not v and k == 'sw' and a[2] in atom[2]:
                return False
        if t and t[0] == 'repl' and k == 'cont' and atom[2] == t[2] and t[2] not in t[3]:
            return False
        if t and t[0] in ('unraw',) and k == 'cont' and atom[2] == '-':
            return False
        if t and t[0] == 'disp' and k == 'cont' and atom[2] == '-':
            return False
    return None


# ------------------------------------------------------------- char theory --

# every ASCII character, and one of each sort of the others
CHARS = [chr(i) for i in range(128)] + ['\u00e9', '\u00c9', '\u00df', '\u01c5', '\u4e00', '\u0661', '\u00bd', '\u2003', '\u0130',
                                        '\U0001f600', '\u0300']
CHAR_PREDS = {
    'upper': lambda ch: 'A' <= ch <= 'Z',
    'is_uppercase': str.isupper, 'is_lowercase': str.islower, 'is_alphabetic': str.isalpha,
    'is_ascii_lowercase': lambda ch: 'a' <= ch <= 'z',
    'is_ascii_alphabetic': lambda ch: ch.isascii() and ch.isalpha(),
    'is_ascii_digit': lambda ch: '0' <= ch <= '9',
    'is_ascii_alphanumeric': lambda ch: ch.isascii() and ch.isalnum(),
    'is_alphanumeric': str.isalnum, 'is_numeric': str.isnumeric, 'is_whitespace': str.isspace,
    'is_ascii': str.isascii, 'is_ascii_punctuation': lambda ch: ch.isascii() and ch.isprintable() and not ch.isalnum() and
    ch != ' ',
}


def char_pred(atom, ch):
    """the value of an atom about a character, None if it says nothing"""
    k = atom[0]
    if k == 'chr':
        return ch == atom[2]
    if k == 'cge':
        return ch >= atom[2]
    f = CHAR_PREDS.get(k)
    return None if f is None else f(ch)


def char_theory(w, atom):
    t = atom[1]
    facts = list(w.by_term.get(t, ()))
    cand = CHARS
    extra = [a[2] for a, _ in facts if a[0] in ('chr', 'cge')] + ([atom[2]] if atom[0] in ('chr', 'cge') else [])
    extra = [x for x in extra if x not in CHARS]
    if t[0] == 'c0':
        for a, v in text_facts(w, t[1]):
            if a[0] == 'streq' and v:
                cand, extra = [a[2][:1]], []
            elif a[0] == 'sw' and a[2] and v:
                cand, extra = [a[2][0]], []
            elif a[0] in ('sw', 'cont') and len(a[2]) == 1 and not v:
                cand = [x for x in cand if x != a[2]]
        if isinstance(t[1], tuple) and len(t[1]) == 2 and t[1][0] in ('unraw', 'disp', 'valid'):
            cand = [x for x in cand if x == '_' or x.isidentifier()]
    rs = set()
    for ch in cand + extra:
        if all(char_pred(a, ch) in (None, v) for a, v in facts):
            rs.add(char_pred(atom, ch))
            if len(rs) > 1:
                return None
    if not rs:
        raise Prune()
    return rs.pop()


# ---------------------------------------------------------- cursor theory --

IDENTS = ('IdentAny', 'Ident')


def kind_class(k):
    if k in IDENTS or k.startswith('kw:'):
        return 'ident'
    if k in ('Lit', 'LitStr', 'LitInt'):
        return k
    if k in ('Brace', 'Paren', 'Bracket'):
        return 'group:' + k
    if k == 'Path':
        return 'path'
    return 'punct:' + k


def implies(a, b):
    """is(a) => is(b)"""
    if a == b:
        return True
    if a.startswith('kw:') and b in IDENTS:
        return True
    if a == 'Ident' and b == 'IdentAny':
        return True
    if a in ('LitStr', 'LitInt') and b == 'Lit':
        return True
    if kind_class(a).startswith('punct:') and kind_class(b).startswith('punct:') and len(b) == 1 and a[0] == b:
        return True
    return False


def compat(a, b):
    """can both hold?"""
    if implies(a, b) or implies(b, a):
        return True
    ca, cb = kind_class(a), kind_class(b)
    if 'path' in (ca, cb):
        o = cb if ca == 'path' else ca
        ok = b if ca == 'path' else a
        return o == 'ident' or o == 'path' or ok in ('::', '<', ':') or ok == 'Lit'
    if ca == cb == 'ident':
        return not (a.startswith('kw:') and b.startswith('kw:'))
    s = {ca, cb}
    if s == {'ident', 'Lit'}:
        return 'IdentAny' in (a, b)
    if s == {'Lit', 'punct:-'} or s == {'LitInt', 'punct:-'}:
        return True
    if ca.startswith('punct:') and cb.startswith('punct:'):
        return a.startswith(b) or b.startswith(a)
    return False


def cursor_theory(w, atom):
    k, c = atom[1], atom[2]
    if c[0] == 'end':
        return k == 'eof'
    facts = w.by_term.get(c, ())
    if k == 'eof':
        for a, v in facts:
            if a[0] == 'is' and v:
                return False
            if a[0] == 'is' and a[1] == 'TokenTree' and not v:
                return True
            if a[0] == 'ok' and v and a[1] in PROGRESS:
                return False
        for a, v in w.by_term.get(('sk', c), ()):
            if a[0] == 'is' and v and a[1] != 'eof':
                return False
        return None
    eof = w.facts.get(('is', 'eof', c))
    if eof is None and any(a[0] == 'ok' and v and a[1] in PROGRESS for a, v in facts):
        eof = False
    if eof is True:
        return False
    if c[0] == 'sk' and w.facts.get(('is', 'eof', c[1])):
        return False
    if k == 'TokenTree':
        if eof is False:
            return True
        for a, v in facts:
            if a[0] == 'is' and v and a[1] != 'eof':
                return True
        return None
    for a, v in facts:
        if a[0] != 'is' or a[1] in ('eof',):
            continue
        if a[1] == 'TokenTree':
            if not v:
                return False
            continue
        if v:
            if implies(a[1], k):
                return True
            if not compat(a[1], k):
                return False
        elif implies(k, a[1]):
            return False
    return None


def theory(w, atom):
    k = atom[0]
    if k == 'is':
        return cursor_theory(w, atom)
    if k == 'isv':
        _, t, name, vs = atom
        no = 0
        for a, v in w.by_term.get(t, ()):
            if a[0] == 'isv':
                if v:
                    return a[2] == name
                if a[2] != name:
                    no += 1
        if no == len(vs) - 1:
            return True
        return None
    if k in TEXT_ATOMS:
        v = text_theory(w, atom)
        return strs.theory(w, atom) if v is None and strs.involved(w, atom) else v
    if k == 'chr' or k == 'cge' or k in CHAR_PREDS:
        return char_theory(w, atom)
    if k == 'lenge':
        for a, v in w.by_term.get(atom[1], ()):
            if a[0] == 'lenge' and (v and a[2] >= atom[2] or not v and a[2] <= atom[2]):
                return v
            if a[0] == 'len1' and v or a[0] == 'any' and len(a) == 3 and a[2] == 'nonempty' and not v:
                return False
            if a[0] == 'len1' and not v and atom[2] == 2 and w.facts.get(('any', atom[1], 'nonempty')):
                return True
        return None
    if k == 'len1':
        if w.facts.get(('any', atom[1], 'nonempty')) is False:
            return False
        for a, v in w.by_term.get(atom[1], ()):
            if a[0] == 'lenge' and v:
                return False
        return None
    if k == 'any' and len(atom) == 3 and atom[2] == 'nonempty':
        if w.facts.get(('len1', atom[1])):
            return True
        for a, v in w.by_term.get(atom[1], ()):
            if a[0] == 'lenge' and v:
                return True
        for fn, v in w.anys.get(atom[1], ()):
            if v:
                return True
        S = atom[1]
        if S[0] == 'fld' and S[3] == 'spans':
            return True         # an invariant of KebabIdent (see `invariant`)
        return None
    if k == 'raw':
        return raw_known(w, atom[1])
    if k == 'ok':
        if atom[1] in PROGRESS and w.known(('is', 'eof', atom[2])):
            return False
        return None
    return None


PROGRESS = set()        # the parsing contracts that consume at least a token
