"""The contracts: for every function of the real code that is a cut point, an
executable specification of what it must return.

Parsing contracts are functions `f(S, c) -> (value, c')` over a cursor; they
call `S.fail()` where the function must return `Err`, `S.err()` where it must
report a diagnostic.  Expansion contracts return a token sequence.

A contract is interpreted by two back ends: `sym.SymS` (the verifier: the
arguments are arbitrary symbolic values, every branch forks) and `conc.ConcS`
(the oracle used to replay counterexamples on real inputs).

Postcondition of every cut function F (see DESIGN.md):
    reported(F) <=> reported(spec F)    and
    not reported  ==> result(F) = result(spec F) [value, cursor, tokens]
and unconditionally: no panic, termination.
"""

CUTS = {}
ORDER = []


class Cut:
    def __init__(self, name, kind, fn, key, props, generic=None):
        self.name, self.kind, self.fn, self.key = name, kind, fn, key
        self.props, self.generic = props, generic


def lab(*props):
    """the properties the tokens and reports made inside are about"""
    def deco(fn):
        def wrapped(S, *a, **k):
            S.push(props)
            try:
                return fn(S, *a, **k)
            finally:
                S.pop()
        wrapped.__name__ = fn.__name__
        wrapped.__doc__ = fn.__doc__
        return wrapped
    return deco


def parse_cut(ty, props, key=None):
    """contract of `<ty as Parse>::parse` (or of a free parsing function)"""
    def deco(fn):
        c = Cut(fn.__name__, 'parse', fn, key or (ty, 'Parse', 'parse'), props)
        c.ty = ty
        CUTS[c.name] = c
        ORDER.append(c.name)
        return fn
    return deco


def tok_cut(key, args, props, generic=None):
    """contract of a function that returns tokens; `args`: the type of each
    parameter (and so what the function is allowed to depend on)"""
    def deco(fn):
        c = Cut(fn.__name__, 'tok', fn, key, props, generic)
        c.args = args
        CUTS[c.name] = c
        ORDER.append(c.name)
        return fn
    return deco


# ----------------------------------------------------------------- parsing --

@parse_cut('Value', ['C11', 'C18', 'C02', 'C03'])
def Value_parse(S, c):
    """`[..]`, `ident[..]`, `{..}` or a literal, in this order; the tokens
    between the delimiters are kept verbatim."""
    if S.peek(c, 'Bracket'):
        toks, c = S.group_tokens(c, 'Bracket')
        return S.mk('Value', 'Bracket', tokens=toks, prefixes=S.none()), c
    if S.peek(c, 'IdentAny') and S.peek2(c, 'Bracket'):
        pre, c = S.eat(c, 'IdentAny')
        toks, c = S.group_tokens(c, 'Bracket')
        return S.mk('Value', 'Bracket', tokens=toks, prefixes=S.some(pre)), c
    if S.peek(c, 'Brace'):
        toks, c = S.group_tokens(c, 'Brace')
        return S.mk('Value', 'Block', tokens=toks), c
    if S.peek(c, 'Lit'):
        lit, c = S.eat(c, 'Lit')
        return S.mk('Value', 'Lit', _0=lit), c
    S.fail()


@parse_cut('KebabIdent', ['C07', 'C18', 'C02', 'C03'])
@lab('C07')
def KebabIdent_parse(S, c):
    """An identifier or `-`, then any number of `-` each optionally followed
    by an identifier or integer (right after a lone leading `-`, the segment
    may follow immediately).  The name is the concatenation of the segments
    without `r#`; a raw segment that is not the first is reported."""
    if S.peek(c, 'IdentAny'):
        ident, c = S.eat(c, 'IdentAny')
        rep = S.unraw_str(ident)
        lone = False
    elif S.peek(c, '-'):
        _, c = S.eat(c, '-')
        rep = S.string('-')
        lone = True
    else:
        S.fail()
    spans = S.unit(S.span())

    def step(c, mode):
        rep, spans = S.string(''), S.seq()
        if S.peek(c, '-'):
            _, c = S.eat(c, '-')
            rep = S.string('-')
        elif mode != 'lone':
            return 'exit', c, (rep, spans)
        if S.peek(c, 'IdentAny'):
            ident, c = S.eat(c, 'IdentAny')
            if S.is_raw(ident):
                S.err()
            rep = S.cat(rep, S.unraw_str(ident))
            spans = S.unit(S.span())
        elif S.peek(c, 'LitInt'):
            lit, c = S.eat(c, 'LitInt')
            rep = S.cat(rep, S.display(lit))
            spans = S.unit(S.span())
        return 'rest', c, (rep, spans)

    _, c, (r2, s2) = S.loop(step, c, 'lone' if lone else 'first')
    return S.mk('KebabIdent', None, repr=S.cat(rep, r2), spans=S.cat(spans, s2)), c


@parse_cut('KebabIdentOrStr', ['C07', 'C12', 'C18'])
def KebabIdentOrStr_parse(S, c):
    if S.peek(c, 'LitStr'):
        s, c = S.eat(c, 'LitStr')
        return S.mk('KebabIdentOrStr', 'Str', _0=s), c
    k, c = S.call('KebabIdent_parse', c)
    return S.mk('KebabIdentOrStr', 'KebabIdent', _0=k), c


@parse_cut('BracedKebabIdent', ['C10', 'C18'])
def BracedKebabIdent_parse(S, c):
    """`{` name `}` and nothing else between the braces."""
    if not S.peek(c, 'Brace'):
        S.fail()
    inner, c2 = S.enter(c, 'Brace')
    k, rest = S.call('KebabIdent_parse', inner)
    if not S.eof(rest):
        S.fail()
    return S.mk('BracedKebabIdent', None, ident=k), c2


@lab('C11')
def value_or_report(S, c):
    """after `=`: a value, or a report (parsing goes on)"""
    r = S.attempt('Value_parse', c)
    if r is None:
        S.err()
        return S.anything('Value'), c
    return r


@lab('C10')
def braced_shorthand_value(S, k):
    """`{name}` stands for `name={name}`"""
    return S.mk('Value', 'Block', tokens=S.unit(S.snake_ident(k)))


@parse_cut('KvAttr', ['C10', 'C07', 'C11', 'C18', 'C14', 'C15'])
def KvAttr_parse(S, c):
    """`{key}`, `key=value` or `key`; the last means `key=true`."""
    if S.peek(c, 'Brace'):
        b, c = S.call('BracedKebabIdent_parse', c)
        k = S.get(b, None, 'ident')
        return S.mk('KvAttr', None, key=k, value=braced_shorthand_value(S, k)), c
    k, c = S.call('KebabIdent_parse', c)
    if S.peek(c, '='):
        _, c = S.eat(c, '=')
        v, c = value_or_report(S, c)
    else:
        v = S.true_value()
    return S.mk('KvAttr', None, key=k, value=v), c


@lab('C12', 'C13')
def modifier(S, c):
    if not S.peek(c, ':'):
        return S.none(), c
    _, c = S.eat(c, ':')
    m, c = S.eat(c, 'IdentAny')
    return S.some(m), c


@parse_cut('Directive', ['C12', 'C13', 'C10', 'C11', 'C18', 'C14', 'C15'])
@lab('C12', 'C13')
def Directive_parse(S, c):
    """`dir:{key}[:modifier]` or `dir:key[:modifier][=value]`."""
    d, c = S.eat(c, 'IdentAny')
    _, c = S.eat(c, ':')
    if S.peek(c, 'Brace'):
        b, c = S.call('BracedKebabIdent_parse', c)
        k = S.get(b, None, 'ident')
        m, c = modifier(S, c)
        return S.mk('Directive', None, dir=d, modifier=m,
                    key=S.mk('KebabIdentOrStr', 'KebabIdent', _0=k),
                    value=S.some(braced_shorthand_value(S, k))), c
    k, c = S.call('KebabIdentOrStr_parse', c)
    m, c = modifier(S, c)
    v = S.none()
    if S.peek(c, '='):
        _, c = S.eat(c, '=')
        v, c = value_or_report(S, c)
        v = S.some(v)
    return S.mk('Directive', None, dir=d, key=k, modifier=m, value=v), c


@parse_cut('SpreadAttr', ['C10', 'C11', 'C18'])
def SpreadAttr_parse(S, c):
    """`{..expr}`; the tokens after `..` are kept verbatim."""
    inner, c2 = S.enter(c, 'Brace')
    if not S.peek(inner, '..'):
        S.fail()
    _, inner = S.eat(inner, '..')
    return S.mk('SpreadAttr', None, rest=S.rest(inner)), c2


@parse_cut('Attr', ['C18', 'C14', 'C15', 'C01'])
def Attr_parse(S, c):
    """`ident :` is a directive (an ill-formed one is reported); else a
    non-keyword identifier is a key-value attribute; else a key-value
    attribute if there is one; else a spread."""
    if S.peek(c, 'IdentAny') and S.peek2(c, ':'):
        r = S.attempt('Directive_parse', c)
        if r is None:
            S.abort()
        d, c = r
        return S.mk('Attr', 'Directive', _0=d), c
    if S.peek(c, 'Ident'):
        k, c = S.call('KvAttr_parse', c)
        return S.mk('Attr', 'Kv', _0=k), c
    r = S.attempt('KvAttr_parse', c)
    if r is not None:
        return S.mk('Attr', 'Kv', _0=r[0]), r[1]
    r = S.attempt('SpreadAttr_parse', c)
    if r is not None:
        return S.mk('Attr', 'Spread', _0=r[0]), r[1]
    S.fail()


def many(S, ty, item, c):
    """items in source order until one does not parse"""
    def step(c, mode):
        r = S.attempt(item, c)
        if r is None:
            return 'exit', c, (S.seq(),)
        return 'rest', r[1], (S.unit(r[0]),)
    _, c, (xs,) = S.loop(step, c, 'rest')
    return S.mk(ty, None, _0=xs), c


@parse_cut('Attrs', ['C01', 'C18', 'C03', 'C06'])
def Attrs_parse(S, c):
    return many(S, 'Attrs', 'Attr_parse', c)


@parse_cut('SelectorShorthand', ['C10', 'C18', 'C07'])
def SelectorShorthand_parse(S, c):
    if S.peek(c, '.'):
        _, c = S.eat(c, '.')
        k, c = S.call('KebabIdent_parse', c)
        return S.mk('SelectorShorthand', 'Class', **{'class': k}), c
    if S.peek(c, '#'):
        _, c = S.eat(c, '#')
        k, c = S.call('KebabIdent_parse', c)
        return S.mk('SelectorShorthand', 'Id', id=k), c
    S.fail()


@parse_cut('SelectorShorthands', ['C01', 'C18', 'C03', 'C06'])
def SelectorShorthands_parse(S, c):
    return many(S, 'SelectorShorthands', 'SelectorShorthand_parse', c)


def tag_kind(S, name):
    """the kind of a tag, by its name"""
    if S.first_is_upper(name):
        return 'Component'
    if S.in_set(name, S.svg_tags()):
        return 'Svg'
    if S.contains(name, '-'):
        return 'WebComponent'
    if S.in_set(name, S.math_tags()):
        return 'Math'
    return 'Html'


@tok_cut(('TagKind', 'From', 'from'), ['str'], ['C08'])
def TagKind_from(S, name):
    return S.mk('TagKind', tag_kind(S, name))


@parse_cut('Tag', ['C08', 'C20', 'C18', 'C02'])
@lab('C08')
def Tag_parse(S, c):
    """Anything that starts like a path (`::`, `a::`, `a<`) is a component
    path; else a name, whose kind decides."""
    if S.peek2(c, '::') or S.peek(c, '::') or S.peek2(c, '<'):
        p, c = S.eat(c, 'Path')
        return S.mk('Tag', 'Component', _0=p), c
    k, c = S.call('KebabIdent_parse', c)
    kind = S.variant(S.call('TagKind_from', S.get(k, None, 'repr')))
    if kind == 'Component':
        v = S.mk('Tag', kind, _0=S.path1(S.unraw(S.snake_ident(k))))
    elif kind == 'WebComponent':
        v = S.mk('Tag', kind, _0=k)
    else:
        v = S.mk('Tag', kind, _0=S.snake_ident(k))
    return v, c


@parse_cut('closure_args', ['C17', 'C18', 'C03'], key=(None, None, 'parse_closure_args'))
@lab('C17')
def parse_closure_args(S, c):
    """`|` .. `|`, verbatim, up to the next `|`"""
    _, c = S.eat(c, '|')

    def step(c, mode):
        if S.peek(c, '|'):
            _, c = S.eat(c, '|')
            return 'exit', c, (S.q('|'),)
        if S.peek(c, 'TokenTree'):
            t, c = S.eat(c, 'TokenTree')
            return 'rest', c, (S.unit(t),)
        return 'exit_err', c, (S.seq(),)
    ex, c, (ts,) = S.loop(step, c, 'rest')
    if ex == 'exit_err':
        S.fail()
    return S.cat(S.q('|'), ts), c


@lab('C04')
def children_block(S, c):
    """a whole `{..}` or `(..)` of children"""
    d = 'Brace' if S.peek(c, 'Brace') else 'Paren'
    inner, c2 = S.enter(c, d)
    ch, rest = S.call('Children_parse', inner)
    if not S.eof(rest):
        S.fail()
    return ch, c2


@parse_cut('Element', ['C01', 'C14', 'C15', 'C18', 'C17', 'C04', 'C02', 'C03'])
@lab('C04')
def Element_parse(S, c):
    """tag, selectors, attributes, then `;` | `{..}` | `(..)` |
    `|args| {..}` | `|args| (..)`; anything else is reported."""
    tag, c = S.call('Tag_parse', c)
    sel, c = S.call('SelectorShorthands_parse', c)
    attrs, c = S.call('Attrs_parse', c)
    args, ch = S.none(), S.none()
    if S.peek(c, ';'):
        _, c = S.eat(c, ';')
    elif S.eof(c):
        S.err()
    elif S.peek(c, 'Brace') or S.peek(c, 'Paren'):
        ch, c = children_block(S, c)
        ch = S.some(ch)
    elif S.peek(c, '|'):
        args, c = S.call('parse_closure_args', c)
        args = S.some(args)
        if S.peek(c, 'Brace') or S.peek(c, 'Paren'):
            ch, c = children_block(S, c)
            ch = S.some(ch)
        else:
            S.err()
    else:
        S.err()
    return S.mk('Element', None, tag=tag, selectors=sel, attrs=attrs,
                children_args=args, children=ch), c


@parse_cut('Child', ['C04', 'C14', 'C15', 'C18', 'C16', 'C02', 'C03'])
@lab('C04')
def Child_parse(S, c):
    """a value (only strings among the literals), `slot:` element, element"""
    r = S.attempt('Value_parse', c)
    if r is not None:
        v, c = r
        if S.variant(v) == 'Lit' and not S.lit_is_str(S.get(v, 'Lit', '_0')):
            S.err()
        return S.mk('Child', 'Node', _0=S.mk('NodeChild', 'Value', _0=v)), c
    if S.peek(c, 'kw:slot') and S.peek2(c, ':') and not S.peek2(c, '::'):
        _, c = S.eat(c, 'kw:slot')
        _, c = S.eat(c, ':')
        e, c = S.call('Element_parse', c)
        return S.mk('Child', 'Slot', _1=e), c
    if S.peek(c, 'IdentAny'):
        e, c = S.call('Element_parse', c)
        return S.mk('Child', 'Node', _0=S.mk('NodeChild', 'Element', _0=e)), c
    S.fail()


@parse_cut('Children', ['C04', 'C01', 'C14', 'C15', 'C03', 'C02', 'C16'])
@lab('C04')
def Children_parse(S, c):
    """every child in source order up to the end; whatever is not a child is
    reported and everything is consumed"""
    def step(c, mode):
        if S.eof(c):
            return 'exit', c, (S.seq(),)
        r, c2 = S.attempt_raw('Child_parse', c)
        if r is not None:
            return 'rest', c2, (S.unit(r),)
        S.err()
        if S.peek(c2, ';'):
            _, c2 = S.eat(c2, ';')
        else:
            _, c2 = S.consume(c2)
        return 'rest', c2, (S.seq(),)
    _, c, (xs,) = S.loop(step, c, 'rest')
    return S.mk('Children', None, _0=xs), c


# --------------------------------------------------------------- expansion --

@tok_cut(('Value', 'ToTokens', 'to_tokens'), ['Value'], ['C11', 'C10', 'C14', 'C15', 'C01', 'C19'])
@lab('C11', 'C10')
def Value_tok(S, v):
    k = S.variant(v)
    if k == 'Lit':
        return S.toks(S.get(v, 'Lit', '_0'))
    t = S.get(v, k, 'tokens')
    if k == 'Block':
        return S.q('{ $t }', t=t)
    p = S.opt(S.get(v, k, 'prefixes'))
    if p is None:
        return S.q('move || { $t }', t=t)
    if S.ident_is(p, 'f'):
        return S.q('move || ::std::format!($t)', t=t)
    S.err()
    return S.seq()


@tok_cut(('NodeChild', 'ToTokens', 'to_tokens'), ['NodeChild'], ['C04', 'C01', 'C19'])
@lab('C04')
def NodeChild_tok(S, n):
    k = S.variant(n)
    x = S.get(n, k, '_0')
    inner = S.call('Value_tok', x) if k == 'Value' else S.call('Element_tok', x)
    return S.q('::leptos::prelude::IntoRender::into_render($x)', x=inner)


@tok_cut(('Element', 'ToTokens', 'to_tokens'), ['Element'], ['C08', 'C01', 'C02'])
def Element_tok(S, e):
    if S.variant(S.get(e, None, 'tag')) == 'Component':
        return S.call('component_tok', e)
    return S.call('xml_tok', e)


def children_of(S, e, slots):
    """the element children (slots=False) or the slots of an element, or None
    if there is no children block"""
    ch = S.opt(S.get(e, None, 'children'))
    if ch is None:
        return None
    return pick_children(S, ch, slots)


def pick_children(S, ch, slots):
    def pick(x):
        if S.variant(x) == 'Node':
            return S.seq() if slots else S.unit(S.get(x, 'Node', '_0'))
        return S.unit(S.get(x, 'Slot', '_1')) if slots else S.seq()
    return S.fm(S.get(ch, None, '_0'), pick)


@lab('C04', 'C17')
def fragment(S, nodes):
    return S.q('::leptos::prelude::View::new(($xs))',
               xs=S.fm(nodes, lambda n: S.q('$x,', x=S.call('NodeChild_tok', n))))


# ---- html / svg / mathml / web components

@lab('C08', 'C07')
def tag_fn(S, tag):
    k = S.variant(tag)
    x = S.get(tag, k, '_0')
    if k == 'WebComponent':
        return S.q('::leptos::tachys::html::element::custom($n)', n=S.lit(S.get(x, None, 'repr')))
    mod = {'Html': 'html', 'Svg': 'svg', 'Math': 'math'}[k]
    return S.q('::leptos::tachys::' + mod + '::element::$t()', t=x)


@tok_cut((None, None, 'xml_to_tokens'), ['Element'],
         ['C06', 'C04', 'C01', 'C08', 'C07', 'C12', 'C09', 'C10', 'C11', 'C14', 'C15', 'C19', 'C02'],
         generic='some')
@lab('C06', 'C10')
def xml_tok(S, e):
    """tag(), attributes, directives, classes, ids, spreads, children: each
    group in source order.  Slots and closure arguments are reported."""
    tag = S.get(e, None, 'tag')
    kind = S.variant(tag)
    attrs = S.get(S.get(e, None, 'attrs'), None, '_0')
    sels = S.get(S.get(e, None, 'selectors'), None, '_0')

    def only(k, f):
        return S.fm(attrs, lambda a: f(S.get(a, k, '_0')) if S.variant(a) == k else S.seq())

    def sel(k, f):
        return S.fm(sels, lambda s: f(S.get(s, k, k.lower())) if S.variant(s) == k else S.seq())

    slots = children_of(S, e, True)
    if slots is not None and S.nonempty(slots):
        S.err()
    if S.opt(S.get(e, None, 'children_args')) is not None:
        S.err()
    nodes = children_of(S, e, False)
    return S.cat(
        tag_fn(S, tag),
        only('Kv', lambda a: S.call('xml_kv', a, S.mk('TagKind', kind))),
        only('Directive', lambda d: S.call('xml_directive', d)),
        sel('Class', lambda k: S.q('.class(($n, true))', n=colored(S, k))),
        sel('Id', lambda k: S.q('.id($n)', n=colored(S, k))),
        only('Spread', lambda s: S.q('.add_any_attr($x)', x=S.get(s, None, 'rest'))),
        S.seq() if nodes is None else
        S.fm(nodes, lambda n: child_call(S, n)))


@lab('C04')
def child_call(S, n):
    return S.q('.child($x)', x=S.call('NodeChild_tok', n))


@lab('C07', 'C10')
def colored(S, k):
    """the name as a string, after one dummy binding per segment"""
    return S.q('{ $lets $s }', s=S.lit(S.get(k, None, 'repr')),
               lets=S.fm(S.get(k, None, 'spans'), lambda _: S.q('let __x = ();')))


def attr_kind(S, name):
    if S.str_is(name, 'class'):
        return 'class'
    if S.str_is(name, 'style'):
        return 'style'
    if S.contains(name, '-') and not S.starts_with(name, 'aria-'):
        return 'custom'
    return 'checked'


@tok_cut((None, None, 'xml_kv_attribute_tokens'), ['KvAttr', 'TagKind'],
         ['C09', 'C07', 'C11', 'C01', 'C19', 'C10'])
@lab('C09', 'C10', 'C07')
def xml_kv(S, a, kind):
    k, v = S.get(a, None, 'key'), S.call('Value_tok', S.get(a, None, 'value'))
    name = S.get(k, None, 'repr')
    if S.str_is(name, 'ref'):
        return S.q('.node_ref($v)', v=v)
    ak = attr_kind(S, name)
    if ak in ('class', 'style') or (ak == 'checked' and S.variant(kind) not in ('Svg', 'WebComponent')):
        return S.q('.$k($v)', k=S.snake_ident(k), v=v)
    return S.q('.attr($n, ::leptos::prelude::IntoAttributeValue::into_attribute_value($v))',
               n=S.lit(name), v=v)


def key_str(S, key):
    """a key as text"""
    if S.variant(key) == 'Str':
        return S.litstr_value(S.get(key, 'Str', '_0'))
    return S.get(S.get(key, 'KebabIdent', '_0'), None, 'repr')


@lab('C07', 'C13', 'C12')
def name_lit(S, s):
    """a name as a string literal"""
    return S.lit(s)


@lab('C07', 'C12', 'C13')
def key_lit(S, key):
    """a key as a string literal (a literal key is used as written)"""
    if S.variant(key) == 'Str':
        return S.toks(S.get(key, 'Str', '_0'))
    return S.q('$n', n=S.lit(key_str(S, key)))


@lab('C07', 'C12', 'C13')
def key_ident(S, key):
    """a key as an identifier; strings are reported"""
    if S.variant(key) == 'Str':
        S.err()
        return S.anything('Ident')
    return S.snake_ident(S.get(key, 'KebabIdent', '_0'))


def opt_value(S, d):
    v = S.opt(S.get(d, None, 'value'))
    return None if v is None else S.call('Value_tok', v)


@lab('C12', 'C13')
def no_modifier(S, d):
    if S.opt(S.get(d, None, 'modifier')) is not None:
        S.err()


@lab('C12', 'C13')
def event(S, d):
    ev = key_ident(S, S.get(d, None, 'key'))
    path = S.q('::leptos::tachys::html::event::$e', e=ev)
    m = S.opt(S.get(d, None, 'modifier'))
    if m is None:
        return path
    if not S.ident_is(m, 'undelegated'):
        S.err()
        return path
    return S.q('::leptos::tachys::html::event::undelegated($p)', p=path)


@lab('C12', 'C13')
def use_value(S, d):
    v = opt_value(S, d)
    return S.q('().into()') if v is None else S.q('::std::convert::Into::into($v)', v=v)


@tok_cut((None, None, 'xml_directive_tokens'), ['Directive'],
         ['C12', 'C07', 'C11', 'C14', 'C15', 'C01', 'C02', 'C19', 'C10'])
@lab('C12')
def xml_directive(S, d):
    name = S.directive_name(d, ('class', 'style', 'prop', 'on', 'use', 'attr', 'clone'))
    key = S.get(d, None, 'key')
    if name in ('class', 'style', 'prop'):
        no_modifier(S, d)
        v = opt_value(S, d)
        v = S.seq() if v is None else v
        if name == 'prop':
            return S.q('.prop($k, $v)', k=key_lit(S, key), v=v)
        return S.q('.' + name + '(($k, $v))', k=key_lit(S, key), v=v)
    if name == 'on':
        ev = event(S, d)
        v = opt_value(S, d)
        return S.q('.on($e, $v)', e=ev, v=S.seq() if v is None else v)
    if name == 'use':
        no_modifier(S, d)
        return S.q('.directive($f, $v)', f=key_ident(S, key), v=use_value(S, d))
    S.err()
    return S.seq()


# ---- components

def value_or_true(S, d):
    v = opt_value(S, d)
    return S.q('true') if v is None else v


@tok_cut((None, None, 'directive_to_any_attr_path'), ['Directive'],
         ['C13', 'C07', 'C11', 'C14', 'C15', 'C01', 'C02', 'C19', 'C10'], generic='opt')
@lab('C13')
def any_attr(S, d):
    """a directive on a component as an attribute value; None if unknown"""
    name = S.directive_name(d, ('class', 'style', 'prop', 'attr', 'on', 'use'))
    key = S.get(d, None, 'key')
    if name in ('class', 'style'):
        no_modifier(S, d)
        return S.some(S.q('::leptos::tachys::html::' + name + '::' + name + '(($k, $v))',
                          k=name_lit(S, key_str(S, key)), v=value_or_true(S, d)))
    if name == 'prop':
        no_modifier(S, d)
        return S.some(S.q('::leptos::tachys::html::property::prop($k, $v)',
                          k=name_lit(S, key_str(S, key)), v=value_or_true(S, d)))
    if name == 'attr':
        no_modifier(S, d)
        return S.some(attr_directive(S, key, value_or_true(S, d)))
    if name == 'on':
        ev = event(S, d)
        v = opt_value(S, d)
        return S.some(S.q('::leptos::tachys::html::event::on($e, $v)', e=ev,
                          v=S.seq() if v is None else v))
    if name == 'use':
        no_modifier(S, d)
        return S.some(S.q('::leptos::tachys::html::directive::directive($f, $v)',
                          f=key_ident(S, key), v=use_value(S, d)))
    return S.none()


@lab('C13')
def attr_directive(S, key, v):
    name = key_str(S, key)
    ak = attr_kind(S, name)
    if ak == 'custom':
        return S.q('::leptos::tachys::html::attribute::custom::custom_attribute($n, $v)',
                   n=name_lit(S, name), v=v)
    k = key_ident(S, key)
    if ak == 'checked':
        return S.q('::leptos::tachys::html::attribute::$k($v)', k=k, v=v)
    return S.q('::leptos::tachys::html::' + ak + '::$k($v)', k=k, v=v)


@lab('C13', 'C07', 'C10', 'C20')
def id_item(S, names):
    return S.q('::leptos::tachys::html::attribute::id($v),', v=S.lit(names))


@lab('C13', 'C10', 'C07')
def class_selector(S, k):
    return S.q('::leptos::tachys::html::class::class(($n, true)),', n=S.lit(S.get(k, None, 'repr')))


def component_parts(S, e, slot):
    """the builder calls for attributes, the any-attributes, the clones"""
    attrs = S.get(S.get(e, None, 'attrs'), None, '_0')

    @lab('C20')
    def props(S, a):
        if S.variant(a) != 'Kv':
            return S.seq()
        a = S.get(a, 'Kv', '_0')
        return S.q('.$k($v)', k=S.snake_ident(S.get(a, None, 'key')),
                   v=S.call('Value_tok', S.get(a, None, 'value')))

    @lab('C13')
    def anyattr(S, a):
        k = S.variant(a)
        if k == 'Kv':
            return S.seq()
        x = S.get(a, k, '_0')
        if k == 'Spread':
            if slot:
                S.err()
                return S.seq()
            return S.q('$x,', x=S.get(x, None, 'rest'))
        if S.ident_is(S.get(x, None, 'dir'), 'clone'):
            return S.seq()
        if slot:
            S.err()
            return S.seq()
        p = S.opt(S.call('any_attr', x))
        if p is None:
            S.err()
            return S.seq()
        return S.q('$x,', x=p)

    @lab('C17')
    def clones(S, a):
        if S.variant(a) != 'Directive':
            return S.seq()
        d = S.get(a, 'Directive', '_0')
        if not S.ident_is(S.get(d, None, 'dir'), 'clone'):
            return S.seq()
        no_modifier(S, d)
        if S.opt(S.get(d, None, 'value')) is not None:
            S.err()
        i = key_ident(S, S.get(d, None, 'key'))
        return S.q('let $i = $i.clone();', i=i)

    return (S.fm(attrs, lambda a: props(S, a)), S.fm(attrs, lambda a: anyattr(S, a)),
            S.fm(attrs, lambda a: clones(S, a)))


@lab('C17')
def children_method(S, e, clones):
    nodes = children_of(S, e, False)
    if nodes is None or not S.nonempty(nodes):
        return S.seq()
    frag = fragment(S, nodes)
    args = S.opt(S.get(e, None, 'children_args'))
    if args is None:
        body = S.q('::leptos::children::ToChildren::to_children(move || $f)', f=frag)
    else:
        body = S.q('move $a $f', a=args, f=frag)
    return S.q('.children({ $c $b })', c=clones, b=body)


@tok_cut((None, None, 'new_raw_ident'), ['Name', 'Span'], ['C07', 'C02'])
@lab('C07')
def new_raw_ident(S, s, _):
    """a raw identifier of the given text (a precondition: it is one), except
    for the words that cannot be raw"""
    return S.raw_ident(s)


@tok_cut((None, None, 'turbofishify'), ['Path'], ['C20', 'C02'])
@lab('C20')
def turbofishify(S, p):
    """`::` before the generic arguments of every segment; arguments in
    parentheses are reported"""
    def segment(s):
        a = S.get(s, None, 'arguments')
        k = S.variant(a)
        if k == 'None':
            return S.unit(s)
        if k == 'Parenthesized':
            S.abort()
        g = S.get(a, k, '_0')
        g = S.mk('AngleBracketedGenericArguments', None, colon2_token=S.some(S.token_value()),
                 lt_token=S.token_value(), args=S.get(g, None, 'args'), gt_token=S.token_value())
        return S.unit(S.mk('PathSegment', None, ident=S.get(s, None, 'ident'),
                           arguments=S.mk('PathArguments', k, _0=g)))
    return S.mk('Path', None, leading_colon=S.get(p, None, 'leading_colon'),
                segments=S.fm(S.get(p, None, 'segments'), segment))


@tok_cut((None, None, 'upper_camel_to_snake_case'), ['str'], ['C16'])
def snake_case(S, s):
    return S.camel_to_snake(s)


@lab('C16')
def slot_methods(S, slots):
    """one builder call per slot name, in name order; the slots of one name in
    source order, as a vec if there are several"""
    def pair(el):
        tag = S.get(el, None, 'tag')
        if S.variant(tag) != 'Component':
            S.err()
            return S.seq()
        name = S.path_ident(S.get(tag, 'Component', '_0'))
        if name is None:
            S.err()
            return S.seq()
        return S.unit(S.pair(name, S.call('slot_tok', el)))

    def method(name, vals):
        m = S.raw_ident(S.camel_to_snake(S.unraw_str(name)))
        if S.len_is_one(vals):
            return S.q('.$m($v)', m=m, v=S.fm(vals, lambda v: v))
        return S.q('.$m(<[_]>::into_vec(::std::boxed::Box::new([$v])))', m=m,
                   v=S.join(vals, S.q(','), lambda v: v))

    return S.fm_groups(S.fm(slots, pair), method)


def builder(S, e, slot):
    attrs, anys, clones = component_parts(S, e, slot)
    ch = children_method(S, e, clones)
    slots = children_of(S, e, True)
    sl = S.seq() if slots is None else slot_methods(S, slots)
    return S.cat(attrs, ch, sl), anys


@lab('C20')
def component_path(S, e):
    tag = S.get(e, None, 'tag')
    return S.path_tokens(S.get(tag, 'Component', '_0'))


@tok_cut((None, None, 'component_to_tokens', 'false'), ['Element'],
         ['C20', 'C13', 'C17', 'C16', 'C04', 'C01', 'C07', 'C10', 'C11', 'C14', 'C15', 'C19', 'C02', 'C05'],
         generic='some')
@lab('C20', 'C13')
def component_tok(S, e):
    calls, anys = builder(S, e, False)
    sels = S.get(S.get(e, None, 'selectors'), None, '_0')
    classes = S.fm(sels, lambda s: class_selector(S, S.get(s, 'Class', 'class'))
                   if S.variant(s) == 'Class' else S.seq())
    idsel = S.fm(sels, lambda s: S.unit(S.get(s, 'Id', 'id')) if S.variant(s) == 'Id' else S.seq())
    ids = S.seq()
    if S.nonempty(idsel):
        names = S.join_str(idsel, ' ', lambda k: S.get(k, None, 'repr'))
        ids = id_item(S, names)
    p = component_path(S, e)
    return S.q('#[allow(unreachable_code)] ::leptos::prelude::View::new('
               '::leptos::component::component_view(&$p, '
               '::leptos::component::component_props_builder(&$p) $calls .build())'
               '.add_any_attr(($classes $ids $anys)))',
               p=p, calls=calls, classes=classes, ids=ids, anys=anys)


@tok_cut((None, None, 'component_to_tokens', 'true'), ['Element'],
         ['C16', 'C20', 'C17', 'C04', 'C01', 'C07', 'C10', 'C11', 'C14', 'C15', 'C19', 'C02', 'C05'],
         generic='some')
@lab('C16', 'C20')
def slot_tok(S, e):
    sels = S.get(S.get(e, None, 'selectors'), None, '_0')
    if S.nonempty(sels):
        S.err()
    calls, _ = builder(S, e, True)
    return S.q('::std::convert::Into::into($p::builder() $calls .build())',
               p=component_path(S, e), calls=calls)


# -------------------------------------------------------------------- root --

@tok_cut((None, None, 'mview_impl'), ['Cursor'],
         ['C04', 'C01', 'C14', 'C15', 'C03', 'C02', 'C19', 'C05'])
@lab('C04')
def mview(S, c):
    """one child: that child; otherwise a fragment of all of them"""
    r = S.attempt('Children_parse', c)
    if r is None or not S.eof(r[1]):
        S.abort()
    ch, _ = r
    if S.nonempty(pick_children(S, ch, True)):
        S.abort()
    nodes = pick_children(S, ch, False)
    if S.len_is_one(S.get(ch, None, '_0')):
        body = S.fm(nodes, lambda n: S.call('NodeChild_tok', n))
    else:
        body = fragment(S, nodes)
    return S.q('{ #[allow(unused_braces)] $b }', b=body)


@tok_cut((None, None, 'mview'), ['Cursor'], ['C01', 'C04', 'C05', 'C10', 'C11', 'C14', 'C15', 'C19', 'C02', 'C03'])
def entry(S, c):
    """the exported macro: the expansion of its input, as it is (of the crate
    leptos-mview-macro)"""
    return S.expand(c)
