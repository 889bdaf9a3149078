"""The properties as lemmas over the contracts.

The contracts fix what every function returns; that the contracts say what the
properties promise is established here, for arbitrary arguments, reading the
contracts only (spec.py), never the code:

no-loss (C01, C14)   what an expansion contract is given is in its result, or
                     determined by the path taken, or a report is made
once (C11, C04)      values, children and spreads are in the result exactly once
read (C01, C18, C03) what a parsing contract reads is in the value it returns,
                     in full up to the cursor where it stops
hygiene (C19)        identifiers a contract adds are methods, keywords, local
                     bindings, or on a path that starts at ::leptos or ::std
shorthand (C10)      shorthands have the value of their long forms
order (C06, C13, C20, C17, C04)  the groups of calls come in the stated order

A lemma is about the contracts together with the data types of the code; it is
evidence, never an alarm: what the code does is judged by the obligations of
verify.py."""
import collections

import rust
import spec
import sx
import symspec
import tmpl
import verify
from models import Host
from sx import Adt, FM, Id, JN, K, O, Opq, Prune, Seq, SPAN, Tk, TOK, Tup, U, UNIT, Unsupported, Violated, W
from symspec import SAbort, SFail

DERIVED = {'unraw', 'disp', 'repl', 'litval', 'ptoks', 'turbo', 'chars', 'display', 'pid', 'chr', 'chr1', 'lower', 'valid'}
ONCE = {'TokenStream', 'Lit', 'Value', 'NodeChild', 'Element', 'SpreadAttr'}


def base(t):
    while isinstance(t, tuple) and t and t[0] in DERIVED:
        t = t[1]
    return t


def const(t):
    return None if any(isinstance(p, (FM, JN)) for p in t.parts) else sx.const_of(t)


class Occ:
    """what occurs in a result: atoms with their number, loops over sequences"""

    def __init__(self):
        self.atoms = collections.Counter()
        self.fms = []

    def term(self, t):
        t = base(t)
        self.atoms[t] += 1
        if isinstance(t, tuple) and t and t[0] == 'tok':
            for k in t[2:]:
                self.key(k)

    def key(self, k):
        if isinstance(k, tuple) and k and isinstance(k[0], tuple):
            for x in k:
                self.key(x)
        elif isinstance(k, tuple) and k and k[0] != 'v':
            self.term(k)

    def add(self, v):
        if isinstance(v, Seq):
            for p in v.parts:
                if isinstance(p, U):
                    self.add(p.v)
                elif isinstance(p, O):
                    self.term(p.term)
                elif isinstance(p, FM):
                    self.fms.append(p)
                    if base(p.S) != p.S:
                        self.atoms[base(p.S)] += 1      # the characters of a name
                elif isinstance(p, JN):
                    self.add(p.seq)
        elif isinstance(v, Tk):
            if v.k == 'g':
                self.add(v.b)
            elif v.k == 's':
                self.add(v.a)
            elif v.k == 'lit':
                self.term(v.a)
        elif isinstance(v, Id):
            self.add(v.text)
        elif isinstance(v, Opq):
            self.term(v.term)
        elif isinstance(v, Adt):
            for x in v.f.values():
                self.add(x)
        elif isinstance(v, Tup):
            for x in v.xs:
                self.add(x)
        return self


class Lost(Exception):
    def __init__(self, lemma, what):
        Exception.__init__(self, what)
        self.lemma, self.what = lemma, what


def flows(occ, S):
    """the loops over S, directly or through the groups of slots"""
    out = [p.fn for p in occ.fms if p.S == S]
    for p in occ.fms:
        if p.S[0] == 'groups':
            out += [q.fn for q in W().groups[p.S[1]].parts if isinstance(q, FM) and q.S == S]
            for q in W().groups[p.S[1]].parts:
                if isinstance(q, FM) and q.S == S:
                    keep, W().E = W().E, []

                    def body(g, p=p):
                        o = Occ().add(p.fn(g))
                        cover(g.xs[0], o, 'name')
                        cover(g.xs[1], o, 'slots')
                        return True
                    sx.forall(p.S, 'group', body)
                    W().E = keep
    return out


def once(occ, t, ty, what):
    if ty in ONCE and occ.atoms[base(t)] > 1:
        raise Lost('once', '%s occurs %d times' % (what, occ.atoms[base(t)]))


def twice(occ, what):
    for t, n in occ.atoms.items():
        if n > 1 and isinstance(t, tuple) and t[0] == 'tok':
            raise Lost('once', '%s of %s occurs %d times' % (t[1], what, n))


def cover(v, occ, what, skip=lambda what, v: False):
    """is everything v says in the result?"""
    if v is SPAN or v is TOK or v is UNIT or skip(what, v):
        return
    if isinstance(v, Tup):
        for i, x in enumerate(v.xs):
            cover(x, occ, '%s.%d' % (what, i), skip)
        return
    if isinstance(v, Seq):
        for p in sx.flat(v.parts):
            if isinstance(p, (K, FM)):
                raise Unsupported('a computed argument')
            if isinstance(p, U):
                cover(p.v, occ, what, skip)
                continue
            if occ.atoms[base(p.term)]:
                once(occ, p.term, 'TokenStream' if v.kind == 'tok' else '', what)
                continue
            if v.kind == 'str':
                if sx.known_text(p.term) is not None or W().known(('ne', p.term)) is False:
                    continue
            elif v.kind == 'tok':
                if W().known(('any', p.term, 'nonempty')) is False:
                    continue
            elif v.kind == 'vec':
                if W().known(('any', p.term, 'nonempty')) is False:
                    continue
                fs = flows(occ, p.term)

                def body(x, fs=fs):
                    w = W()
                    o = Occ()
                    for f in fs:
                        o.add(f(x))
                    if sx.e_true(w.E):
                        return True     # reported
                    w.E = []
                    twice(o, what)
                    cover(x, o, what + '[..]', skip)
                    return True
                sx.forall(p.term, p.ety, body)
                continue
            raise Lost('no-loss', '%s is not in the result' % what)
        return
    if isinstance(v, Adt):
        for n, x in v.f.items():
            cover(x, occ, what + '.' + n, skip)
        return
    if not isinstance(v, Opq):
        raise Unsupported('coverage of %r' % (v,))
    head, args = sx.split_gen(v.ty)
    if occ.atoms[base(v.term)]:
        once(occ, v.term, head, what)
        return
    if head == 'Ident':
        if sx.known_text(('disp', v.term)) is not None:
            return
        raise Lost('no-loss', '%s is not in the result' % what)
    if head in ('Lit', 'LitStr', 'LitInt', 'TokenTree', 'Path', 'TagKind'):
        if head == 'TagKind' or head == 'Lit' and occ.atoms[('fld', v.term, 'Str', '_0')]:
            return
        raise Lost('no-loss', '%s is not in the result' % what)
    k = sx.variant(v)
    if head == 'Option':
        if k == 'Some':
            cover(sx.field(v, 'Some', '_0'), occ, what, skip)
        return
    names = sx.field_names(v.ty, k)
    if names is None:
        raise Unsupported('coverage of ' + v.ty)
    if head == 'KebabIdent':
        names = ['repr']        # `spans` are positions
    for n in names:
        cover(sx.field(v, k, n), occ, '%s.%s' % (what, n), skip)


# ------------------------------------------------------------------ hygiene --

FREE = sx.KEYWORDS | {'true', 'false', '_', '__x', 'allow', 'unused_braces', 'unreachable_code'}
ROOTS = {'leptos', 'std'}


def hygiene(seq):
    prev2, prev = None, None
    for p in seq.parts:
        v = p.v if isinstance(p, U) else None
        if isinstance(v, Id):
            t = const(v.text)
            if t is not None:
                if prev == '::':
                    if prev2 is None and t not in ROOTS:
                        raise Lost('hygiene', 'the path ::%s' % t)
                elif prev != '.' and t not in FREE:
                    raise Lost('hygiene', 'the identifier `%s`' % t)
        if isinstance(v, Tk) and v.k == 'g':
            hygiene(v.b)
        if isinstance(p, FM):
            sx.forall(p.S, p.ety, lambda x, p=p: hygiene(p.fn(x)) or (p.fn0 and hygiene(p.fn0(x))) or True)
        # what stands before `::`: a type, or nothing (then the path is absolute)
        cur = v.a if isinstance(v, Tk) and v.k == 'p' else 'x'
        if cur == '::':
            prev2 = 'x' if prev in ('x', '>') and not kw else None
        kw = isinstance(v, Id) and const(v.text) in sx.KEYWORDS
        prev = cur


# -------------------------------------------------------------------- order --

def producers(seq):
    """for the loops of a sequence, in order: for which elements they give
    something"""
    out = []
    dot = False
    for p in seq.parts:
        was, dot = dot, isinstance(p, U) and isinstance(p.v, Tk) and p.v.k == 'p' and p.v.a == '.'
        if isinstance(p, U) and isinstance(p.v, Tk) and p.v.k == 'g':
            out += producers(p.v.b)
        elif was and isinstance(p, U) and isinstance(p.v, Id) and const(p.v.text) in ('build', 'children', 'add_any_attr'):
            out.append(const(p.v.text))
        elif isinstance(p, FM) and p.S[0] == 'groups':
            out.append('slots')
        elif isinstance(p, FM):
            got = set()

            def body(x, p=p):
                k = sx.variant(x)
                if sx.seq_nonempty(p.fn(x)):
                    d = ''
                    if k == 'Directive':
                        i = sx.field(sx.field(x, k, '_0'), None, 'dir')
                        d = ':clone' if symspec.ident_is(i, 'clone') else ''
                    got.add(k + d)
                return True
            keep, W().E = W().E, []
            sx.forall(p.S, p.ety, body)
            W().E = keep
            if got:
                out.append('+'.join(sorted(got)))
        elif isinstance(p, U) and isinstance(p.v, Tk) and p.v.k == 's' and \
                any(isinstance(q, JN) for q in p.v.a.parts):
            out.append('Ids')
    return out


ORDERS = {
    'xml_tok': ['Kv', 'Directive+Directive:clone', 'Class', 'Id', 'Spread', 'Node'],
    'component_tok': ['Kv', 'children', 'Directive:clone', 'Node', 'slots', 'build', 'add_any_attr', 'Class', 'Ids',
                      'Directive+Spread'],
    'slot_tok': ['Kv', 'children', 'Directive:clone', 'Node', 'slots', 'build'],
    'mview': ['Node'],
}


def order(name, seq):
    got, want = producers(seq), list(ORDERS[name])
    for g in got:
        while want and want[0] != g:
            want.pop(0)
        if not want:
            raise Lost('order', 'the groups come as %s' % ', '.join(got))
        want.pop(0)


# ------------------------------------------------------------------ parsing --

def steps(c, c0):
    """the cursors read from c0 to c, last first"""
    while c != c0:
        yield c
        h = c[0]
        if h in ('sk', 'nx', 'nt'):
            c = c[1]
        elif h in ('cur', 'errcur'):
            c = c[2]
        elif h in ('lc', 'lg'):
            c = symspec.LOOPS[c]
        else:
            raise Unsupported('cursor %s' % (c,))


def read(c, c0, occ):
    """everything between c0 and c is in the value"""
    w = W()
    for s in steps(c, c0):
        h, p = s[0], s[1] if s[0] in ('sk', 'nx', 'nt') else None
        if h == 'cur':
            ty = spec.CUTS[s[1]].ty
            cover(sx.mk_opq('TokenStream' if ty == 'closure_args' else ty, ('val', s[1], s[2])), occ,
                  'the result of ' + s[1])
        elif h in ('lc', 'lg'):
            rec = [r for r in w.loops if s in (r['LC'], r['LCg'])][0]
            if not any(a[:2] == ('lacc', rec['k']) for a in occ.atoms if isinstance(a, tuple)):
                raise Lost('read', 'what a loop reads is not in the value')
        elif h == 'nt':
            if not occ.atoms[('tt', p)]:
                raise Lost('read', 'a token is not in the value')
        elif h == 'nx':
            if s[2] in ('Path', 'Lit', 'LitInt', 'LitStr') and not occ.atoms[(s[2].lower(), p)]:
                raise Lost('read', 'a %s is not in the value' % s[2])
        else:
            if w.known(('is', 'IdentAny', p)):
                if not occ.atoms[('id', p)] and sx.known_text(('disp', ('id', p))) is None:
                    raise Lost('read', 'an identifier is not in the value')
            elif w.known(('is', 'LitStr', p)):
                if not occ.atoms[('litstr', p)]:
                    raise Lost('read', 'a string is not in the value')
            elif any(w.known(('is', d, p)) for d in ('Brace', 'Paren', 'Bracket')):
                inner = ('in', p)
                ends = [a[1] for a in occ.atoms if isinstance(a, tuple) and a[0] == 'rest' and symspec.root(a[1]) == inner]
                ends += [a[2] for a, v in w.facts.items() if v and a[:2] == ('is', 'eof') and symspec.root(a[2]) == inner]
                for e in ends:
                    read(e, inner, occ)
                    break
                else:
                    raise Lost('read', 'the content of a group is not in the value')
            elif not any(w.known(('is', k, p)) for k in symspec.KINDS - {'eof', 'TokenTree', 'Path'}):
                raise Lost('read', 'a token of unknown kind is skipped')


# -------------------------------------------------------------------- running --

def lemma(prog, name):
    """-> (paths, [(lemma, what, path)], why undecided)"""
    cut = spec.CUTS[name]
    bad, n = [], [0]
    seen = set()

    def leaf(w):
        h = Host(prog, cut, ())
        args = [('root',)] if cut.kind == 'parse' else [verify.argument(t, i) for i, t in enumerate(cut.args)]
        r = verify.run_spec(h, cut, args)
        if r[0] != 'ok' or sx.e_true(w.E):
            return True
        n[0] += 1
        w.E = []

        def run(f):
            try:
                f()
            except Lost as e:
                if (e.lemma, e.what) not in seen:
                    seen.add((e.lemma, e.what))
                    bad.append((e.lemma, e.what, verify.facts_text(w)))
        occ = Occ().add(r[1])
        if cut.kind == 'parse':
            run(lambda: read(r[2], ('root',), occ))
            for rec in list(w.loops):
                rounds(h, rec, run)
            return True
        if cut.args == ['Cursor']:
            if name == 'mview':
                ch = sx.mk_opq('Children', ('val', 'Children_parse', ('root',)))
                run(lambda: cover(ch, occ, 'children'))
                run(lambda: order(name, r[1]))
                run(lambda: hygiene(r[1]))
            return True
        if cut.name in ('TagKind_from', 'new_raw_ident', 'turbofishify', 'snake_case'):
            if cut.name == 'turbofishify':
                def body(s):
                    a = sx.variant(sx.field(s, None, 'arguments'))
                    o = Occ().add(r[1].f['segments'].parts[0].fn(s))
                    if sx.e_true(W().E) or o.atoms[s.term]:
                        return True
                    if a == 'Parenthesized':
                        raise Lost('no-loss', 'arguments in parentheses')
                    cover(sx.field(s, None, 'ident'), o, 'segment')
                    if a == 'AngleBracketed':
                        g = sx.field(sx.field(sx.field(s, None, 'arguments'), a, '_0'), None, 'args')
                        cover(g, o, 'generics')
                    return True
                segs = sx.field(args[0], None, 'segments').parts[0]
                run(lambda: sx.forall(segs.term, segs.ety, body))
            return True
        val = r[1]
        if cut.generic == 'opt':
            val = h.opt(val)
            if val is None:
                return True     # the caller reports
        kids = not name.endswith(('component_tok', 'slot_tok')) or 'children' in producers(val)

        def skip(what, v):
            # documented: without element children there is nothing to give
            # `clone:` directives and closure arguments to
            if kids:
                return False
            if what.endswith('children_args'):
                return True
            if isinstance(v, Opq) and v.ty == 'Directive':
                return symspec.ident_is(sx.field(v, None, 'dir'), 'clone')
            return False
        run(lambda: twice(occ, name))
        for i, a in enumerate(args):
            run(lambda: cover(a, occ, cut.args[i], skip))
        run(lambda: hygiene(val))
        if name in ORDERS:
            run(lambda: order(name, val))
        return True

    why = None
    try:
        sx.explore(leaf)
    except Unsupported as e:
        why = str(e)
    except Exception as e:
        why = 'internal: %r' % (e,)
    return n[0], bad, why


def rounds(h, rec, run):
    """a round of a loop of a contract keeps what it reads"""
    for m in h.modes(rec) + [rec['mode0']]:
        def b(w, m=m):
            r = h.spec_step(rec, rec['LCg'], m)
            if r is None or sx.e_true(w.E):
                return True
            w.E = []
            occ = Occ()
            for d in r[2]:
                occ.add(d)
            run(lambda: read(r[1], rec['LCg'], occ))
            return True
        sx.explore(b, W())


def shorthand(prog):
    """C10: `{x}` is `x={x}` and a bare `x` is `x=true`"""
    bad, n = [], [0]
    x = Opq('Ident', ('id', 'x'))
    eq, true = Tk('p', '='), Id(Seq('str', [K('true')]))
    brace = Tk('g', '{', Seq('tok', [U(x)]))

    def leaf(w):
        # `x` is not a keyword (`type={type}` is not Rust, `{type}` means r#type)
        if w.decide(('inset', ('disp', x.term), sx.KEYWORDS)) or w.decide(('raw', x.term)):
            return True
        h = Host(prog, spec.CUTS['KvAttr_parse'], ())

        def parse(toks):
            k = len(h.ctoks)
            h.ctoks[k] = toks
            v, c = h.call('KvAttr_parse', ('tc', k, 0))
            return v, c[2] == len(toks)
        for a, b in (([brace], [x, eq, brace]), ([x], [x, eq, true])):
            (v1, e1), (v2, e2) = parse(a), parse(b)
            n[0] += 1
            if not (e1 and e2 and sx.eq(v1, v2)):
                bad.append(('shorthand', 'the long form has another value: %s' % (w.why,), verify.facts_text(w)))
        return True
    why = None
    try:
        sx.explore(leaf)
    except Exception as e:
        why = repr(e)
    return n[0], bad, why


def prove(prog):
    """-> {contract: dict(paths, failures, why)}"""
    out = {}
    for name in spec.ORDER:
        k, bad, why = lemma(prog, name)
        out[name] = dict(paths=k, failures=['%s: %s' % b[:2] for b in bad], why=why)
    k, bad, why = shorthand(prog)
    out['shorthand'] = dict(paths=k, failures=['%s: %s' % b[:2] for b in bad], why=why)
    return out


if __name__ == '__main__':
    import sys
    prog = verify.load(sys.argv[1], '/repo')
    print(shorthand(prog))
    for n in sys.argv[2:] or spec.ORDER:
        k, bad, why = lemma(prog, n)
        print('%-28s paths=%d %s' % (n, k, why or ''))
        for l, what, path in bad[:6]:
            print('    ', l, what)
            if len(sys.argv) > 2:
                for x in path:
                    print('          ', x)
