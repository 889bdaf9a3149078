"""The contracts of the libraries (std, syn, quote, proc_macro2,
proc_macro_error2), as models on the values of sx.py, and the resolution of
calls: a function under contract is replaced by its contract, any other
function of the crate is executed (`Machine.run`), the rest is below.

Everything in this file is trusted; what is not listed is `Unsupported`."""
import re

import mir
import rust
import spec
import strs
import sx
import symspec
from rust import Abort, GRef, Len
from sx import (Adt, ANY, Clo, Const, ERR, FM, Fn, Id, It, JN, K, O, Opq, PB, POS, Prune, Ref, Seq, SPAN, Tk, TOK, Tup, U,
                UNIT, Unsupported, Violated, W, norm_ty, split_gen)
from symspec import SFail, SymS

NONE = Adt('Option', 'None')


def some(v):
    return Adt('Option', 'Some', {'_0': v})


def ok(v):
    return Adt('Result', 'Ok', {'_0': v})


def err(v=ERR):
    return Adt('Result', 'Err', {'_0': v})


def opt(v):
    return NONE if v is None else some(v)


METHODS = {}        # (self head or '*', method) -> model
TRAITS = {}         # (trait, method) -> model
FREE = {}           # last segments of a free function -> model


def method(*keys):
    def deco(fn):
        for k in keys:
            METHODS[k] = fn
        return fn
    return deco


def trait(*keys):
    def deco(fn):
        for k in keys:
            TRAITS[k] = fn
        return fn
    return deco


def free(*keys):
    def deco(fn):
        for k in keys:
            FREE[k] = fn
        return fn
    return deco


class Call:
    __slots__ = ('m', 'h', 'args', 'self', 'gens', 'env', 'name')

    def v(self, i):
        return self.m.val(self.args[i])


# ------------------------------------------------------------------- helpers --

def seq_of(c, v):
    v = c.m.val(v)
    if isinstance(v, Seq):
        return v
    if isinstance(v, Adt) and v.ty == 'Vec':
        return v.f['_0']
    raise Unsupported('%s of %r' % (c.name, v))


def append(c, ref, *parts):
    if isinstance(ref, GRef):
        m = c.m.val(ref.ref)
        for p in parts:
            if not isinstance(p, U):
                raise Unsupported('extend of a map entry')
            m = Adt(m.ty, None, {'pairs': m.f['pairs'] + Seq('vec', [U(Tup([ref.key, p.v]))])})
        return store(c, ref.ref, m)
    v = c.m.val(ref)
    if isinstance(v, GRef):
        return append(c, v, *parts)
    if not isinstance(v, Seq):
        raise Unsupported('append to %r' % (v,))
    store(c, ref, Seq(v.kind, v.parts + parts))


def store(c, ref, val):
    while True:
        if not isinstance(ref, Ref):
            raise Unsupported('%s: not a place' % c.name)
        v = c.m.load(ref.cell, ref.path)
        if not isinstance(v, Ref):
            break
        ref = v
    c.m.store(ref.cell, ref.path, val)


def as_iter(c, v):
    v = c.m.val(v)
    if isinstance(v, It):
        return v
    if isinstance(v, Seq):
        if v.kind == 'tok':
            return It(tuple(trees(p) for p in sx.flat(v.parts)))
        return It(v.parts)
    if isinstance(v, Adt) and v.ty == 'BTreeMap':
        return map_iter(c, v)
    if isinstance(v, (Adt, Opq)) and split_gen(v.ty)[0] == 'Option':
        if sx.variant(v) == 'None':
            return It(())
        return It((U(c.m.get_field(v, 'Some', '_0')),))
    raise Unsupported('iteration over %r' % (v,))


def trees(p):
    """a part of a token sequence as a part of a sequence of token trees"""
    if isinstance(p, U):
        x = p.v
        if isinstance(x, Opq) and x.ty == 'TokenTree' or isinstance(x, Adt) and x.ty == 'TokenTree':
            return p
        if is_ident(x):
            return U(Adt('TokenTree', 'Ident', {'_0': x}))
        if isinstance(x, Tk) and (x.k in ('g', 's') or x.k == 'p' and len(x.a) == 1):
            return U(Adt('TokenTree', {'g': 'Group', 's': 'Literal', 'p': 'Punct'}[x.k], {'_0': x}))
    if isinstance(p, O) and not p.unf and not p.ety and p.term[0] in ('fld', 'rest', 'val', 'stream'):
        return O(('tts', p.term), 'TokenTree')
    raise Unsupported('iteration over tokens')


def map_iter(c, v):
    parts = sx.flat(v.f['pairs'].parts)
    if not parts:
        return It(())
    w = W()
    new = Seq('vec', parts)
    for i, g in enumerate(w.groups):
        keep = w.why
        if sx.eq_seq(new, g):
            return It((O(('groups', i), 'group'),))
        w.why = keep
    w.groups.append(new)
    return It((O(('groups', len(w.groups) - 1), 'group'),))


def consume(c, it, f):
    """f(x) for every element, in order"""
    m = c.m
    it = as_iter(c, it)
    for p in m.it_parts(it):
        if isinstance(p, U):
            for x in m.stage(it.stages, p.v):
                f(x)
            continue

        def body(v):
            for x in m.stage(it.stages, v):
                f(x)
        m.drive(p, body, set(), lambda _: False)


def str_of(v):
    if isinstance(v, Seq) and v.kind == 'str':
        return v
    if isinstance(v, str):
        return Seq('str', [K(v)])
    raise Unsupported('text of %r' % (v,))


def const_str(v):
    s = sx.const_of(v) if isinstance(v, Seq) else v
    if not isinstance(s, str):
        raise Unsupported('a computed text where a constant is expected')
    return s


def panics(msg):
    raise Violated('panic', msg, ('C02',))


TREE = {(k, '_0') for k in ('Group', 'Ident', 'Punct', 'Literal')}


def tokens_of(c, v):
    """the tokens of a value, what `to_tokens` appends"""
    v = c.m.val(v)
    if isinstance(v, Seq):
        if v.kind == 'tok':
            return v.parts
        if v.kind == 'str':
            return (U(Tk('s', v)),)
        raise Unsupported('tokens of a sequence')
    if isinstance(v, Id):
        return (U(v),)
    if isinstance(v, Tk) and v.k in ('p', 'g', 's', 'x'):
        return (U(v),)
    if isinstance(v, (Tk, Tup)) or v is TOK or v is SPAN:
        raise Unsupported('tokens of %r' % (v,))
    if isinstance(v, (Adt, Opq)):
        head = split_gen(v.ty)[0]
        if head == 'Option':
            if sx.variant(v) == 'None':
                return ()
            return tokens_of(c, c.m.get_field(v, 'Some', '_0'))
        if isinstance(v, Opq) and v.term[0] == 'fld' and v.term[2:] in TREE:
            return (U(Opq('TokenTree', v.term[1])),)
        if head == 'TokenTree' and isinstance(v, Adt):
            return tokens_of(c, v.f['_0'])
        if head == 'Ident' or head == 'TokenTree':
            return (U(v),)
        if head in ('Lit', 'LitStr', 'LitInt'):
            return symspec.lit_toks(v).parts
        if head == 'Path':
            return symspec.path_toks(v).parts
        f = c.m.prog.impls.get((head, 'ToTokens', 'to_tokens'))
        if f is not None:
            ts = Ref(c.m.alloc(Seq('tok')))
            c.h.local(c.m, f, [v, ts], {}, None)
            return c.m.val(ts).parts
    raise Unsupported('tokens of %r' % (v,))


def valid_ident(s):
    """is the text an identifier (or keyword)?  True, False or None (unknown)"""
    ps = sx.flat(s.parts)
    k = sx.const_of(s)
    if k is not None:
        return k.isidentifier()
    ts = sx.sum_text(ps) if len(ps) != 1 or not isinstance(ps[0], O) else [ps[0].term]
    if ts is None:
        return None
    t = ts[0]
    if strs.has(tuple(ts)):
        r = strs.is_ident(W(), ts)
        if isinstance(r, tuple):
            panics('%r, of %r, as an identifier' % r)
        return r
    return valid_term(t) if len(ts) == 1 else None


def valid_term(t):
    if not isinstance(t, tuple):
        return None
    if t[0] in ('unraw', 'valid'):
        return True
    if t[0] == 'disp':
        return True if sx.raw_known(W(), t[1]) is False else None
    if t[0] == 'repl' and t[2:] == ('-', '_') and t[1][0] == 'fld' and t[1][3] == 'repr':
        return True         # an invariant of KebabIdent
    if t[0] == 'fld' and t[3] == 'repr' and W().known(('cont', t, '-')) is False:
        return True
    if t[0] == 'tok' and t[1] == 'snake_case':
        return valid_term(t[2])
    return None


def need_ident(s, what):
    v = valid_ident(s)
    if v is False:
        panics('%s of %r' % (what, s))
    if v is None:
        raise Unsupported('%s of a computed text %r' % (what, s))


# ------------------------------------------------------------------ std: core --

@trait(('Clone', 'clone'), ('Deref', 'deref'), ('AsRef', 'as_ref'), ('Borrow', 'borrow'), ('ToOwned', 'to_owned'),
       ('Into', 'into'), ('BorrowMut', 'borrow_mut'), ('IntoSpans', 'into_spans'), ('CloneToUninit', 'clone'))
def ident_(c):
    v = c.args[0]
    if isinstance(v, It) or not isinstance(v, Ref):
        return v
    return c.m.val(v)


@trait(('DerefMut', 'deref_mut'), ('AsMut', 'as_mut'))
def same(c):
    return c.args[0]


@trait(('From', 'from'))
def from_(c):
    v = c.v(0)
    head = norm_ty(c.self or '')
    if head in ('String', 'Error', 'TokenStream') or isinstance(v, Seq):
        return v
    if head == 'Path' and isinstance(v, (Opq, Id)):
        return symspec.path1(v)
    if head.startswith('Option'):
        return some(v)
    if head == 'TokenTree':
        return v
    if head == 'PathSegment':
        return symspec.path1(v).f['segments'].parts[0].v
    raise Unsupported(c.name)


@trait(('Default', 'default'))
def default_(c):
    head = split_gen(norm_ty(c.self))[0]
    if head == 'Vec':
        return Seq('vec')
    if head == 'String':
        return Seq('str')
    if head == 'Option':
        return NONE
    if head == 'TokenStream':
        return Seq('tok')
    if head == 'BTreeMap':
        return Adt('BTreeMap', None, {'pairs': Seq('vec')})
    if head == 'bool':
        return False
    if head in ('usize', 'u32', 'i32', 'u64'):
        return 0
    if head in sx.TOKENS:
        return TOK
    raise Unsupported(c.name)


@trait(('PartialEq', 'eq'), ('PartialEq', 'ne'))
def eq_(c):
    r = equal(c, c.v(0), c.v(1))
    return r if c.name.endswith('eq') else not r


def is_ident(v):
    return isinstance(v, Id) or isinstance(v, Opq) and v.ty == 'Ident'


def byte_text(s):
    """the text that has these bytes"""
    out = []
    for p in sx.flat(s.parts):
        if isinstance(p, U) and isinstance(p.v, int) and not isinstance(p.v, bool) and 0 <= p.v < 128:
            out.append(K(chr(p.v)))
        elif isinstance(p, O) and p.ety == 'u8' and p.term[0] == 'chars':
            out.append(O(p.term[1]))
        else:
            return None
    return Seq('str', out)


def equal(c, a, b):
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind == 'str':
        for x, y in ((a, b), (b, a)):
            k = sx.const_of(y)
            if k is not None:
                return sx.str_is(x, k)
        if sx.skey(a) == sx.skey(b):
            return True
        t, u = one_text(a), one_text(b)
        if strs.root(t) != strs.root(u):
            raise Unsupported('comparison of two computed texts')
        return W().decide(('teq',) + tuple(sorted((t, u), key=repr)))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Seq) and x.kind != 'str' and isinstance(y, Seq) and (byte_text(x) or byte_text(y)):
            x, y = [v if v.kind == 'str' else byte_text(v) for v in (x, y)]
            if x is not None and y is not None:
                return equal(c, x, y)
    for x, y in ((a, b), (b, a)):
        if is_ident(x) and isinstance(y, Seq) and y.kind == 'str':
            return symspec.ident_is(x, const_str(y))
    if is_ident(a) and is_ident(b):
        if isinstance(a, Opq) and isinstance(b, Opq) and a.term == b.term:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opq) and isinstance(y, Id) and sx.skey(y.text) == ('unraw', x.term):
                r = symspec.is_raw(x)
                return r == (sx.id_raw(y) == 'yes')
        return equal(c, symspec.disp_text(a), symspec.disp_text(b))
    if isinstance(a, (Adt, Opq)) and isinstance(b, (Adt, Opq)) and split_gen(a.ty)[0] == split_gen(b.ty)[0]:
        v1, v2 = sx.variant(a), sx.variant(b)
        if v1 != v2:
            return False
        ty = split_gen(a.ty)[0]
        names = ['_0'] if v1 in ('Some', 'Ok', 'Err') else [] if v1 == 'None' else sx.field_names(a.ty, v1)
        if names is None:
            if ty in ('Delimiter', 'Spacing', 'Level'):
                return True
            raise Unsupported('comparison of %s' % ty)
        return all(equal(c, c.m.get_field(a, v1, n), c.m.get_field(b, v2, n)) for n in names)
    if isinstance(a, (bool, int, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, str) and isinstance(b, Opq):
        a, b = b, a
    if isinstance(a, int) and isinstance(b, Opq):
        a, b = b, a
    if isinstance(a, Opq) and a.ty in ('char', 'u8'):
        return c.m.binop('Eq', a, b)
    if isinstance(a, Len) or isinstance(b, Len):
        return c.m.binop('Eq', a, b)
    raise Unsupported('comparison of %r and %r' % (a, b))


@trait(('Not', 'not'))
def not_(c):
    return not c.v(0)


@trait(('Fn', 'call'), ('FnMut', 'call_mut'), ('FnOnce', 'call_once'))
def call_(c):
    a = c.v(1)
    return c.m.apply(c.args[0], [] if a is UNIT else a.xs)


@trait(('Try', 'branch'))
def branch(c):
    v = c.v(0)
    k = sx.variant(v)
    if k in ('Ok', 'Some'):
        return Adt('ControlFlow', 'Continue', {'_0': c.m.get_field(v, k, '_0')})
    return Adt('ControlFlow', 'Break', {'_0': err(c.m.get_field(v, k, '_0')) if k == 'Err' else NONE})


@trait(('FromResidual', 'from_residual'))
def from_residual(c):
    return c.v(0)


@trait(('Try', 'from_output'))
def from_output(c):
    return ok(c.v(0)) if norm_ty(c.self).startswith('Result') else some(c.v(0))


@free('hint::must_use', 'convert::identity', 'mem::drop', 'hint::black_box')
def must_use(c):
    return c.args[0] if not c.name.endswith('drop') else UNIT


@free('mem::take')
def take(c):
    v = c.v(0)
    if isinstance(v, Seq):
        store(c, c.args[0], Seq(v.kind))
        return v
    if isinstance(v, (Adt, Opq)) and split_gen(v.ty)[0] == 'Option':
        store(c, c.args[0], NONE)
        return v
    raise Unsupported(c.name)


@free('mem::replace')
def replace(c):
    v = c.v(0)
    store(c, c.args[0], c.args[1])
    return v


@method(('bool', 'then'))
def then(c):
    return some(c.m.apply(c.args[1], [])) if c.v(0) else NONE


@method(('bool', 'then_some'))
def then_some(c):
    return some(c.args[1]) if c.v(0) else NONE


# --------------------------------------------------------- Option and Result --

def unwrap(c, v):
    """(variant, payload)"""
    k = sx.variant(v)
    return k, (c.m.get_field(v, k, '_0') if k != 'None' else None)


def optmodel(name):
    return method(('Option', name))


def resmodel(name):
    return method(('Result', name))


@method(('Option', 'as_ref'), ('Result', 'as_ref'), ('Option', 'cloned'), ('Option', 'copied'), ('Option', 'as_deref'))
def o_as_ref(c):
    return c.v(0)


@method(('Option', 'as_mut'))
def o_as_mut(c):
    v = c.v(0)
    if sx.variant(v) == 'None':
        return NONE
    r = c.args[0]
    while isinstance(c.m.load(r.cell, r.path), Ref):
        r = c.m.load(r.cell, r.path)
    return some(Ref(r.cell, r.path + (('Some', '_0'),)))


@method(('Option', 'get_or_insert'), ('Option', 'get_or_insert_with'), ('Option', 'insert'))
def o_get_or_insert(c):
    v = c.v(0)
    if sx.variant(v) == 'None' or c.name.endswith('>::insert'):
        x = c.m.apply(c.args[1], []) if c.name.endswith('with') else c.args[1]
        store(c, c.args[0], some(x))
    r = c.args[0]
    while isinstance(c.m.load(r.cell, r.path), Ref):
        r = c.m.load(r.cell, r.path)
    return Ref(r.cell, r.path + (('Some', '_0'),))


@method(('Option', 'take'))
def o_take(c):
    v = c.v(0)
    store(c, c.args[0], NONE)
    return v


@method(('Option', 'is_some'), ('Result', 'is_ok'))
def o_is_some(c):
    return sx.variant(c.v(0)) in ('Some', 'Ok')


@method(('Option', 'is_none'), ('Result', 'is_err'))
def o_is_none(c):
    return sx.variant(c.v(0)) in ('None', 'Err')


@method(('Option', 'is_some_and'), ('Result', 'is_ok_and'))
def o_is_some_and(c):
    k, x = unwrap(c, c.v(0))
    return k in ('Some', 'Ok') and c.m.apply(c.args[1], [x])


@method(('Option', 'is_none_or'))
def o_is_none_or(c):
    k, x = unwrap(c, c.v(0))
    return k == 'None' or c.m.apply(c.args[1], [x])


@method(('Option', 'unwrap'), ('Option', 'expect'), ('Result', 'unwrap'), ('Result', 'expect'))
def o_unwrap(c):
    k, x = unwrap(c, c.v(0))
    if k not in ('Some', 'Ok'):
        panics('%s on %s in %s' % (c.name.rsplit('::', 1)[-1], k, c.m.where()))
    return x


@method(('Option', 'unwrap_or'), ('Result', 'unwrap_or'))
def o_unwrap_or(c):
    k, x = unwrap(c, c.v(0))
    return x if k in ('Some', 'Ok') else c.args[1]


@method(('Option', 'unwrap_or_else'), ('Result', 'unwrap_or_else'))
def o_unwrap_or_else(c):
    k, x = unwrap(c, c.v(0))
    return x if k in ('Some', 'Ok') else c.m.apply(c.args[1], [] if k == 'None' else [x])


@method(('Option', 'unwrap_or_default'), ('Result', 'unwrap_or_default'))
def o_unwrap_or_default(c):
    k, x = unwrap(c, c.v(0))
    if k in ('Some', 'Ok'):
        return x
    c2 = Call()
    c2.m, c2.h, c2.args, c2.env, c2.name, c2.gens = c.m, c.h, [], c.env, c.name, []
    c2.self = split_gen(norm_ty(c.self))[1][0]
    return default_(c2)


@method(('Option', 'map'), ('Result', 'map'))
def o_map(c):
    k, x = unwrap(c, c.v(0))
    if k == 'Some':
        return some(c.m.apply(c.args[1], [x]))
    if k == 'Ok':
        return ok(c.m.apply(c.args[1], [x]))
    return c.v(0)


@method(('Result', 'map_err'))
def r_map_err(c):
    k, x = unwrap(c, c.v(0))
    return c.v(0) if k == 'Ok' else err(c.m.apply(c.args[1], [x]))


@method(('Option', 'inspect'), ('Result', 'inspect'))
def o_inspect(c):
    k, x = unwrap(c, c.v(0))
    if k in ('Some', 'Ok'):
        c.m.apply(c.args[1], [x])
    return c.v(0)


@method(('Result', 'inspect_err'))
def r_inspect_err(c):
    k, x = unwrap(c, c.v(0))
    if k == 'Err':
        c.m.apply(c.args[1], [x])
    return c.v(0)


@method(('Option', 'map_or'), ('Result', 'map_or'))
def o_map_or(c):
    k, x = unwrap(c, c.v(0))
    return c.m.apply(c.args[2], [x]) if k in ('Some', 'Ok') else c.args[1]


@method(('Option', 'map_or_else'), ('Result', 'map_or_else'))
def o_map_or_else(c):
    k, x = unwrap(c, c.v(0))
    if k in ('Some', 'Ok'):
        return c.m.apply(c.args[2], [x])
    return c.m.apply(c.args[1], [] if k == 'None' else [x])


@method(('Option', 'and_then'), ('Result', 'and_then'))
def o_and_then(c):
    k, x = unwrap(c, c.v(0))
    return c.m.apply(c.args[1], [x]) if k in ('Some', 'Ok') else c.v(0)


@method(('Option', 'and'), ('Result', 'and'))
def o_and(c):
    k, x = unwrap(c, c.v(0))
    return c.v(1) if k in ('Some', 'Ok') else c.v(0)


@method(('Option', 'or'))
def o_or(c):
    k, x = unwrap(c, c.v(0))
    return c.v(0) if k == 'Some' else c.v(1)


@method(('Option', 'or_else'), ('Result', 'or_else'))
def o_or_else(c):
    k, x = unwrap(c, c.v(0))
    return c.v(0) if k in ('Some', 'Ok') else c.m.apply(c.args[1], [] if k == 'None' else [x])


@method(('Option', 'filter'))
def o_filter(c):
    k, x = unwrap(c, c.v(0))
    return c.v(0) if k == 'Some' and c.m.apply(c.args[1], [x]) else NONE


@method(('Option', 'flatten'))
def o_flatten(c):
    k, x = unwrap(c, c.v(0))
    return x if k == 'Some' else NONE


@method(('Option', 'ok_or'), ('Option', 'ok_or_else'))
def o_ok_or(c):
    k, x = unwrap(c, c.v(0))
    if k == 'Some':
        return ok(x)
    return err(c.m.apply(c.args[1], []) if c.name.endswith('else') else c.args[1])


@method(('Result', 'ok'))
def r_ok(c):
    k, x = unwrap(c, c.v(0))
    return some(x) if k == 'Ok' else NONE


@method(('Result', 'err'))
def r_err(c):
    k, x = unwrap(c, c.v(0))
    return some(x) if k == 'Err' else NONE


@method(('Option', 'transpose'))
def o_transpose(c):
    k, x = unwrap(c, c.v(0))
    if k == 'None':
        return ok(NONE)
    k, x = unwrap(c, c.m.val(x))
    return ok(some(x)) if k == 'Ok' else err(x)


@method(('Result', 'transpose'))
def r_transpose(c):
    k, x = unwrap(c, c.v(0))
    if k == 'Err':
        return some(err(x))
    k, x = unwrap(c, c.m.val(x))
    return some(ok(x)) if k == 'Some' else NONE


@method(('Option', 'zip'))
def o_zip(c):
    k, x = unwrap(c, c.v(0))
    k2, y = unwrap(c, c.v(1))
    return some(Tup([x, y])) if k == k2 == 'Some' else NONE


@method(('Option', 'iter'), ('Option', 'into_iter'))
def o_iter(c):
    return as_iter(c, c.args[0])


# ----------------------------------------------------------------- iterators --

@trait(('IntoIterator', 'into_iter'))
def into_iter(c):
    v = c.v(0)
    if isinstance(v, It) and isinstance(c.args[0], Ref):
        return c.args[0]
    return as_iter(c, v)


@method(('slice', 'iter'), ('Vec', 'iter'), ('Punctuated', 'iter'), ('Vec', 'drain'), ('Vec', 'into_iter'))
def iter_(c):
    return as_iter(c, c.args[0])


@method(('BTreeMap', 'iter'), ('BTreeMap', 'into_iter'))
def iter_map(c):
    return as_iter(c, c.args[0])


@method(('BTreeMap', 'values'), ('BTreeMap', 'into_values'))
def map_values(c):
    it = as_iter(c, c.args[0])
    return It(it.parts, it.stages + (('py', lambda m, v: [m.val(v).xs[1]]),))


@method(('BTreeMap', 'keys'), ('BTreeMap', 'into_keys'))
def map_keys(c):
    it = as_iter(c, c.args[0])
    return It(it.parts, it.stages + (('py', lambda m, v: [m.val(v).xs[0]]),))


@method(('Punctuated', 'iter_mut'), ('slice', 'iter_mut'), ('Vec', 'iter_mut'))
def iter_mut(c):
    return Adt('IterMut', None, {'ref': c.args[0]})


def staged(kind):
    def f(c):
        it = as_iter(c, c.args[0])
        return It(it.parts, it.stages + ((kind, c.args[1]),))
    return f


for _k in ('map', 'filter', 'filter_map'):
    TRAITS[('Iterator', _k)] = staged(_k)


@trait(('Iterator', 'flatten'))
def it_flatten(c):
    it = as_iter(c, c.args[0])

    def f(m, v):
        v = m.val(v)
        if isinstance(v, (Adt, Opq)) and split_gen(v.ty)[0] in ('Option', 'Result'):
            k = sx.variant(v)
            return [m.get_field(v, k, '_0')] if k in ('Some', 'Ok') else []
        raise Unsupported('flatten')
    return It(it.parts, it.stages + (('py', f),))


@trait(('Iterator', 'flat_map'))
def it_flat_map(c):
    it = as_iter(c, c.args[0])
    fn = c.args[1]

    def f(m, v):
        v = m.val(m.apply(fn, [v]))
        if isinstance(v, (Adt, Opq)) and split_gen(v.ty)[0] in ('Option', 'Result'):
            k = sx.variant(v)
            return [m.get_field(v, k, '_0')] if k in ('Some', 'Ok') else []
        raise Unsupported('flat_map')
    return It(it.parts, it.stages + (('py', f),))


@trait(('Iterator', 'inspect'))
def it_inspect(c):
    it = as_iter(c, c.args[0])
    fn = c.args[1]

    def f(m, v):
        m.apply(fn, [v])
        return [v]
    return It(it.parts, it.stages + (('py', f),))


@trait(('Iterator', 'enumerate'))
def it_enumerate(c):
    it = as_iter(c, c.args[0])
    cell = c.m.alloc(0)

    def f(m, v):
        n = m.load(cell, ())
        m.store(cell, (), POS if n is POS or n > 0 or True else n)
        return [Tup([n, v])]
    return It(it.parts, it.stages + (('py', f),))


@trait(('Iterator', 'copied'), ('Iterator', 'cloned'), ('Iterator', 'by_ref'), ('Iterator', 'peekable'), ('Iterator', 'fuse'))
def it_same(c):
    v = c.args[0]
    return v if c.name.endswith('by_ref') else as_iter(c, v)


@trait(('Iterator', 'chain'))
def it_chain(c):
    a, b = as_iter(c, c.args[0]), as_iter(c, c.args[1])
    if a.stages or b.stages:
        raise Unsupported('chain of iterators with stages')
    return It(a.parts + b.parts)


def one_to_one(it, c):
    if any(s[0] != 'map' for s in it.stages):
        raise Unsupported('%s of a filtered iterator' % c.name)
    return it


def behead(c, it):
    """(first element, iterator over the others) or None"""
    if any(s[0] in ('py', 'poison') for s in it.stages):
        raise Unsupported(c.name)
    r = ()
    if all(s[0] == 'map' for s in it.stages):
        try:
            r = sx.split_at(it.parts)
        except Unsupported:
            pass
    if r == ():
        return c.m.it_first(it)
    return r and (c.m.stage(it.stages, r[0])[0], It(tuple(r[1]), it.stages))


@trait(('Iterator', 'rev'))
def it_rev(c):
    v = c.v(0)
    it = as_iter(c, v)
    if any(s[0] == 'py' for s in it.stages):
        raise Unsupported('rev')
    return It(sx.rev_parts(it.parts), it.stages)


@trait(('Iterator', 'skip'))
def it_skip(c):
    it = as_iter(c, c.args[0])
    for _ in range(small(c.v(1))):
        r = behead(c, it)
        if r is None:
            return It(())
        it = r[1]
    return it


@trait(('Iterator', 'take'))
def it_take(c):
    it, out = as_iter(c, c.args[0]), []
    for _ in range(small(c.v(1))):
        r = behead(c, it)
        if r is None:
            break
        out.append(U(r[0]))
        it = r[1]
    return It(tuple(out))


def small(n):
    if not isinstance(n, int) or n > 4:
        raise Unsupported('a count of %r' % (n,))
    return n


@trait(('Iterator', 'nth'))
def it_nth(c):
    it, x = as_iter(c, c.args[0]), None
    for _ in range(small(c.v(1)) + 1):
        r = behead(c, it)
        if r is None:
            it = None
            break
        x, it = r
    if isinstance(c.args[0], Ref):
        c.m.set_it(c.args[0], it or It(()))
    return NONE if it is None else some(x)


@trait(('Iterator', 'last'), ('DoubleEndedIterator', 'next_back'))
def it_last(c):
    it = as_iter(c, c.args[0])
    r = behead(c, It(sx.rev_parts(it.parts), it.stages))
    if c.name.endswith('next_back') and isinstance(c.args[0], Ref):
        c.m.set_it(c.args[0], It(tuple(sx.rev_parts(r[1].parts)), it.stages) if r else It(()))
    return NONE if r is None else some(r[0])


@method(('slice', 'split_first'), ('slice', 'split_last'))
def split_first(c):
    s = seq_of(c, c.args[0])
    front = c.name.endswith('first')
    try:
        r = sx.split_at(s.parts, front)
    except Unsupported:
        if not front:
            raise
        r = c.m.it_first(It(s.parts))
        r = r and (r[0], r[1].parts)
    return NONE if r is None else some(Tup([r[0], Seq(s.kind, r[1])]))


@method(('Vec', 'insert'))
def v_insert(c):
    s = seq_of(c, c.args[0])
    i = c.v(1)
    parts, head = s.parts, []
    if not isinstance(i, int):
        raise Unsupported('insert')
    if i and all(isinstance(p, U) for p in sx.flat(parts)[:i]):
        ps = sx.flat(parts)
        if len(ps) < i:
            panics('insert out of bounds')
        head, parts = ps[:i], ps[i:]
    elif i:
        raise Unsupported('insert')
    store(c, c.args[0], Seq(s.kind, tuple(head) + (U(c.args[2]),) + tuple(parts)))
    return UNIT


@trait(('Iterator', 'collect'), ('FromIterator', 'from_iter'))
def it_collect(c):
    to = norm_ty(c.gens[0]) if c.name.endswith('collect') and c.gens else norm_ty(c.self or '')
    head = split_gen(to)[0]
    kind = {'Vec': 'vec', 'TokenStream': 'tok', 'String': 'str'}.get(head)
    if kind is None:
        raise Unsupported('collect into ' + to)
    acc = Ref(c.m.alloc(Seq(kind)))
    consume(c, c.args[0], lambda x: add_item(c, acc, kind, x))
    return c.m.val(acc)


def add_item(c, acc, kind, x):
    if kind == 'vec':
        append(c, acc, U(x))
    elif kind == 'tok':
        append(c, acc, *tokens_of(c, x))
    elif isinstance(c.m.val(x), Seq):
        append(c, acc, *c.m.val(x).parts)
    else:
        append(c, acc, symspec.char_text(c.m.val(x)))


@trait(('Iterator', 'for_each'))
def it_for_each(c):
    v = c.v(0)
    if isinstance(v, Adt) and v.ty == 'IterMut':
        return for_each_mut(c, v.f['ref'], lambda r: c.m.apply(c.args[1], [r]))
    consume(c, v, lambda x: c.m.apply(c.args[1], [x]))
    return UNIT


def for_each_mut(c, ref, f):
    """changes every element of a sequence in place"""
    m = c.m
    seq = seq_of(c, ref)
    acc = Ref(m.alloc(Seq(seq.kind)))

    def one(x):
        r = Ref(m.alloc(x))
        f(r)
        append(c, acc, U(m.val(r)))
    consume(c, It(seq.parts), one)
    store(c, ref, m.val(acc))
    return UNIT


@trait(('Iterator', 'partition'))
def it_partition(c):
    a, b = Ref(c.m.alloc(Seq('vec'))), Ref(c.m.alloc(Seq('vec')))
    consume(c, c.args[0], lambda x: append(c, a if c.m.apply(c.args[1], [x]) else b, U(x)))
    return Tup([c.m.val(a), c.m.val(b)])


@trait(('Iterator', 'fold'))
def it_fold(c):
    acc = Ref(c.m.alloc(c.args[1]))
    consume(c, c.args[0], lambda x: store(c, acc, c.m.apply(c.args[2], [c.m.val(acc), x])))
    return c.m.val(acc)


def any_of(c, it, pred):
    m = c.m
    it = as_iter(c, it)
    for p in m.it_parts(it):
        if isinstance(p, U):
            if any(pred(x) for x in m.stage(it.stages, p.v)):
                return True
            continue
        S, ety, els, _ = m.part_fn(p)

        def has(x, els=els):
            return m.quiet(lambda: any(pred(y) for e in els(x) for y in m.stage(it.stages, e)))
        if sx.decide_any(S, ety, has):
            return True
    return False


@trait(('Iterator', 'any'))
def it_any(c):
    return any_of(c, c.args[0], lambda x: c.m.apply(c.args[1], [x]))


@trait(('Iterator', 'all'))
def it_all(c):
    return not any_of(c, c.args[0], lambda x: not c.m.apply(c.args[1], [x]))


@trait(('Iterator', 'find'))
def it_find(c):
    it = as_iter(c, c.args[0])
    return opt(c.m.it_some(It(it.parts, it.stages + (('filter', c.args[1]),))))


@trait(('Iterator', 'find_map'))
def it_find_map(c):
    it = as_iter(c, c.args[0])
    return opt(c.m.it_some(It(it.parts, it.stages + (('filter_map', c.args[1]),))))


def first_item(c, it):
    ps = c.m.it_parts(it)
    if ps and not it.stages and isinstance(ps[0], O) and ps[0].ety == 'str':
        return sfn('seg0', ps[0].term[1], ps[0].term[2])
    if ps and not it.stages and isinstance(ps[0], O) and ps[0].ety in ('char', 'u8') and ps[0].term[0] == 'chars':
        t = ps[0].term[1]
        if sx.decide_str('ne', Seq('str', [O(t)])):
            return Opq(ps[0].ety, ('c0', t))
        if len(ps) == 1:
            return None
        raise Unsupported('first character of a computed text')
    return c.m.it_some(it)


@trait(('Iterator', 'next'))
def it_next(c):
    v = c.v(0)
    if not isinstance(v, It):
        raise Unsupported('next of %r' % (v,))
    ps = c.m.it_parts(v)
    if ps and isinstance(ps[0], U) and not v.stages:
        c.m.set_it(c.args[0], It(ps[1:]))
        return some(ps[0].v)
    if ps and isinstance(ps[0], O) and ps[0].ety == 'str' and not v.stages:
        _, t, d = ps[0].term
        more = sx.W().decide(('cont', t, d))
        c.m.set_it(c.args[0], It((tuple(segs(('sfn', 'after', t, d), d)) if more else ()) + tuple(ps[1:])))
        return some(sfn('seg0', t, d))
    kinds = {s[0] for s in v.stages}
    if 'poison' not in kinds and 'py' not in kinds and not any(getattr(p, 'ety', None) in ('char', 'group', 'u8', 'str') for p in ps):
        if ps and kinds <= {'map'} and isinstance(ps[0], (O, FM)) and ps[0].ety != 'Span':
            try:
                r = sx.split_at(ps)
            except Unsupported:
                r = ()
            if r is None:
                c.m.set_it(c.args[0], It(()))
                return NONE
            if r:
                c.m.set_it(c.args[0], It(tuple(r[1]), v.stages))
                return some(c.m.stage(v.stages, r[0])[0])
        r = c.m.it_first(v)
        if isinstance(c.args[0], Ref):
            c.m.set_it(c.args[0], It(()) if r is None else r[1])
        return NONE if r is None else some(r[0])
    x = first_item(c, v)
    if isinstance(c.args[0], Ref):
        c.m.set_it(c.args[0], It((), ()) if x is None else It(v.parts, (('poison',),) + v.stages))
    return opt(x)


@method(('Peekable', 'peek'))
def it_peek(c):
    return opt(first_item(c, c.v(0)))


@method(('Peekable', 'next_if'))
def it_unsupported(c):
    raise Unsupported(c.name)


# ---------------------------------------------------------------- Vec, slices --

@method(('Vec', 'new'), ('Vec', 'with_capacity'), ('Punctuated', 'new'))
def v_new(c):
    return Seq('vec')


@method(('Vec', 'push'), ('Punctuated', 'push_value'))
def v_push(c):
    append(c, c.args[0], U(c.args[1]))
    return UNIT


@method(('Vec', 'append'))
def v_append(c):
    v = c.v(1)
    append(c, c.args[0], *v.parts)
    store(c, c.args[1], Seq(v.kind))
    return UNIT


@method(('Vec', 'extend_from_slice'))
def v_extend_slice(c):
    append(c, c.args[0], *seq_of(c, c.args[1]).parts)
    return UNIT


@trait(('Extend', 'extend'))
def extend(c):
    kind = seq_of(c, c.args[0]).kind
    v = c.v(1)
    if kind == 'tok' and isinstance(v, Seq) and v.kind == 'tok':
        append(c, c.args[0], *v.parts)
    else:
        consume(c, v, lambda x: add_item(c, c.args[0], kind, x))
    return UNIT


@method(('Vec', 'is_empty'), ('slice', 'is_empty'), ('Punctuated', 'is_empty'), ('str', 'is_empty'),
        ('String', 'is_empty'))
def is_empty(c):
    v = c.v(0)
    if isinstance(v, Opq) and sx.split_gen(v.ty)[0] == 'GenericArgs':
        return not W().decide(('any', v.term, 'nonempty'))
    return not sx.seq_nonempty(seq_of(c, c.args[0]))


@method(('TokenStream', 'is_empty'))
def ts_is_empty(c):
    s = seq_of(c, c.args[0])
    for p in sx.flat(s.parts):
        if isinstance(p, O) and p.term[0] == 'rest':
            if not c.h.eof(p.term[1]):
                return False
        elif isinstance(p, U):
            return False
        elif isinstance(p, O) and p.unf:
            if sx.seq_nonempty(Seq('tok', sx.unfold(p).parts)):
                return False
        elif sx.seq_nonempty(Seq('tok', [p])):
            return False
    return True


@method(('Vec', 'len'), ('slice', 'len'), ('Punctuated', 'len'), ('str', 'len'), ('String', 'len'))
def len_(c):
    s = seq_of(c, c.args[0])
    ps = sx.flat(s.parts)
    if all(isinstance(p, U) for p in ps) and s.kind == 'vec':
        return len(ps)
    if s.kind == 'vec' and len(ps) == 1 and getattr(ps[0], 'ety', None) == 'u8' and isinstance(ps[0], O):
        s = Seq('str', [O(ps[0].term[1])])
        ps = s.parts
    if any(getattr(p, 'ety', None) == 'u8' for p in ps):
        raise Unsupported('number of bytes')
    k = sx.const_of(s) if s.kind == 'str' and all(isinstance(p, K) for p in ps) else None
    return len(k.encode()) if k is not None else Len(s)


@trait(('ExactSizeIterator', 'len'))
def it_len(c):
    it = as_iter(c, c.args[0])
    if it.stages and any(s[0] != 'map' for s in it.stages):
        raise Unsupported('len')
    return Len(Seq('vec', it.parts))


@trait(('Iterator', 'count'))
def it_count(c):
    it = as_iter(c, c.args[0])
    if any(s[0] != 'map' for s in it.stages):
        raise Unsupported('count')
    if len(it.parts) == 1 and not it.stages and isinstance(it.parts[0], O) and it.parts[0].ety == 'u8':
        return Len(Seq('str', [O(it.parts[0].term[1])]))
    if any(getattr(p, 'ety', None) == 'u8' for p in it.parts):
        raise Unsupported('number of bytes')
    return Len(Seq('vec', it.parts))


@method(('Vec', 'first'), ('slice', 'first'), ('Punctuated', 'first'))
def first(c):
    it = It(seq_of(c, c.args[0]).parts)
    ps = c.m.it_parts(it)
    if ps and getattr(ps[0], 'ety', None) in ('char', 'u8', 'str') and isinstance(ps[0], O):
        return opt(first_item(c, it))
    return opt(c.m.it_some(it))


@method(('Vec', 'last'), ('slice', 'last'), ('Punctuated', 'last'))
def last(c):
    s = seq_of(c, c.args[0])
    ps = sx.flat(s.parts)
    if ps and isinstance(ps[-1], U):
        return some(ps[-1].v)
    if len(ps) <= 1 and ps and getattr(ps[0], 'ety', None) in ('Span', 'proc_macro2::Span'):
        return opt(c.m.it_some(It(tuple(ps))))
    r = sx.split_at(ps, False)
    return NONE if r is None else some(r[0])


@method(('Vec', 'get'), ('slice', 'get'))
def get_(c):
    if c.v(1) == 0:
        return first(c)
    parts, x = seq_of(c, c.args[0]).parts, None
    for _ in range(small(c.v(1)) + 1):
        r = sx.split_at(parts)
        if r is None:
            return NONE
        x, parts = r
    return some(x)


@method(('Vec', 'remove'), ('Vec', 'swap_remove'))
def v_remove(c):
    s = seq_of(c, c.args[0])
    i = c.v(1)
    ps = list(sx.flat(s.parts))
    if isinstance(i, int) and all(isinstance(p, U) for p in ps):
        if i >= len(ps):
            panics('remove out of bounds')
        if c.name.endswith('swap_remove') and len(ps) > i + 1:
            raise Unsupported('swap_remove')
        x = ps.pop(i)
        store(c, c.args[0], Seq(s.kind, ps))
        return x.v
    if i == 0 and len(ps) == 1 and isinstance(ps[0], O) and ps[0].ety:
        if not sx.seq_nonempty(s):
            panics('remove from an empty vec')
        # at least one element: the first one (the others are not supported)
        if sx.seq_len1(s):
            return v_remove(c)
        x = c.m.it_some(It(tuple(ps)))
        store(c, c.args[0], Seq(s.kind, [O(W().fresh('tail'))]))
        return x
    raise Unsupported('remove')


@method(('Vec', 'pop'))
def v_pop(c):
    s = seq_of(c, c.args[0])
    ps = list(sx.flat(s.parts))
    if not ps:
        return NONE
    r = sx.split_at(ps, False)
    if r is None:
        return NONE
    store(c, c.args[0], Seq(s.kind, r[1]))
    return some(r[0])


@method(('LocalKey', 'with'))
def tls_with(c):
    v = c.v(0)
    if not (isinstance(v, Opq) and v.ty.startswith('Cell')):
        raise Unsupported('a thread-local value')
    return c.m.apply(c.args[1], [v])


@method(('OnceLock', 'get_or_init'))
def once(c):
    f = c.v(1)
    if isinstance(f, Clo) and f.caps:
        raise Unsupported('a static that keeps a value of an earlier run')
    return c.m.apply(f, [])


@trait(('Index', 'index'))
def index(c):
    i = c.v(1)
    if isinstance(i, Const) and i.name.endswith('RangeFull') or isinstance(i, Adt) and i.ty == 'RangeFull':
        return c.v(0)
    s = c.m.val(c.args[0])
    if isinstance(s, Seq) and s.kind == 'str' and isinstance(i, Adt):
        r = slice_of(s, i)
        if r is None:
            panics('a text cut where it cannot be')
        return r
    return c.m.index(c.v(0), i)


def slice_of(s, i):
    """the bytes of a text in a range, or None if it cannot be cut there"""
    a, b = i.f.get('start', 0), i.f.get('end')
    if i.ty not in ('RangeTo', 'RangeFrom', 'Range') or not isinstance(a, int) or b is not None and not isinstance(b, int):
        raise Unsupported('index %r' % (i,))
    for n, fn in ((b, 'btake'), (a, 'bskip')):
        if n:
            if not sx.decide_str('bnd', s, n):
                return None
            s = text_fn(s, fn, n)
        elif n == 0 and fn == 'btake':
            s = Seq('str')
    return s


@method(('str', 'get'))
def str_get(c):
    r = slice_of(str_of(c.v(0)), c.v(1))
    return NONE if r is None else some(r)


@method(('str', 'split_at'))
def split_at_(c):
    s, n = str_of(c.v(0)), c.v(1)
    if not isinstance(n, int):
        raise Unsupported(c.name)
    if n and not sx.decide_str('bnd', s, n):
        panics('a text cut where it cannot be')
    return Tup([text_fn(s, 'btake', n), text_fn(s, 'bskip', n)]) if n else Tup([Seq('str'), s])


@method(('str', 'is_char_boundary'))
def is_boundary(c):
    n = c.v(1)
    if not isinstance(n, int):
        raise Unsupported(c.name)
    return not n or sx.decide_str('bnd', str_of(c.v(0)), n)


@method(('slice', 'into_vec'), ('slice', 'to_vec'), ('Vec', 'as_slice'), ('Vec', 'into_boxed_slice'), ('Box', 'new'),
        ('Vec', 'as_ref'), ('array', 'as_slice'))
def into_vec(c):
    return c.v(0)


def the_segs(ps):
    """a sequence that is all the pieces of a text"""
    if len(ps) != 1 or getattr(ps[0], 'ety', None) != 'str':
        return None
    if isinstance(ps[0], O):
        return ps[0].term
    if isinstance(ps[0], FM) and not ps[0].fn0:
        x = Seq('str', [O(('piece',))])
        q = sx.flat(ps[0].fn(x).parts)
        if len(q) == 1 and isinstance(q[0], U) and q[0].v is x:
            return ps[0].S
    return None


@method(('slice', 'join'), ('slice', 'concat'))
def join(c):
    s = seq_of(c, c.args[0])
    sep = str_of(c.v(1)) if len(c.args) > 1 else Seq('str')
    ps = sx.flat(s.parts)
    t = the_segs(ps)
    if t:
        _, t, d = t
        return replace_all(Seq('str', [O(t)]), d, const_str(sep))
    return Seq('str', [JN(s, sep)])


@method(('slice', 'contains'))
def contains_slice(c):
    s = seq_of(c, c.args[0])
    if any(getattr(p, 'ety', None) == 'u8' for p in sx.flat(s.parts)) and isinstance(c.v(1), int) and c.v(1) < 128:
        t = byte_text(s)
        if t is None:
            raise Unsupported('bytes of a computed text')
        return sx.decide_str('cont', t, chr(c.v(1)))
    return in_consts(c, consts_of(c, c.args[0]), c.v(1))


def consts_of(c, v):
    out = []
    for p in sx.flat(seq_of(c, v).parts):
        if not isinstance(p, U):
            raise Unsupported('a computed table')
        out.append(const_str(c.m.val(p.v)))
    return out


def in_consts(c, xs, v):
    if isinstance(v, Seq):
        return sx.decide_str('inset', v, frozenset(xs))
    raise Unsupported('search of %r' % (v,))


TABLES = {}


@method(('slice', 'binary_search'))
def binary_search(c):
    xs = tuple(consts_of(c, c.args[0]))
    if xs not in TABLES:
        TABLES[xs] = frozenset(x for x in xs if bsearch(xs, x))
    return ok(POS) if in_consts(c, TABLES[xs], c.v(1)) else err(POS)


def bsearch(xs, x):
    """does the algorithm of std find x? (xs may not be sorted)"""
    size = len(xs)
    if size == 0:
        return False
    base = 0
    b = [y.encode() for y in xs]
    t = x.encode()
    while size > 1:
        half = size // 2
        mid = base + half
        base = base if b[mid] > t else mid
        size -= half
    return b[base] == t


# ---------------------------------------------------------------------- maps --

@method(('BTreeMap', 'new'))
def map_new(c):
    return Adt('BTreeMap', None, {'pairs': Seq('vec')})


@method(('BTreeMap', 'entry'))
def map_entry(c):
    return GRef(c.args[0], c.v(1))


@method(('Entry', 'or_default'), ('Entry', 'or_insert_with'), ('Entry', 'or_insert'))
def map_or_default(c):
    v = c.args[0]
    if not isinstance(v, GRef):
        raise Unsupported(c.name)
    if len(c.args) > 1:
        d = c.args[1] if c.name.endswith('or_insert') else c.m.apply(c.args[1], [])
        if not (isinstance(d, Seq) and not d.parts):
            raise Unsupported(c.name)
    return v


@method(('BTreeMap', 'is_empty'))
def map_is_empty(c):
    return not sx.seq_nonempty(c.v(0).f['pairs'])


# ------------------------------------------------------------------- strings --

@method(('String', 'new'), ('String', 'with_capacity'))
def s_new(c):
    return Seq('str')


@method(('String', 'push'))
def s_push(c):
    append(c, c.args[0], symspec.char_text(c.v(1)))
    return UNIT


@method(('String', 'push_str'))
def s_push_str(c):
    append(c, c.args[0], *str_of(c.v(1)).parts)
    return UNIT


@trait(('Add', 'add'))
def s_add(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind == 'str':
        return a + b
    return c.m.binop('Add', a, b)


@trait(('AddAssign', 'add_assign'))
def s_add_assign(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind == 'str':
        append(c, c.args[0], *b.parts)
        return UNIT
    raise Unsupported(c.name)


@method(('String', 'as_str'), ('str', 'to_owned'), ('str', 'to_string'), ('String', 'into_boxed_str'), ('str', 'as_ref'))
def s_as_str(c):
    return c.v(0)


@trait(('ToString', 'to_string'))
def to_string(c):
    return display(c, c.v(0))


def display(c, v):
    if isinstance(v, Seq) and v.kind == 'str':
        return v
    if is_ident(v):
        return symspec.disp_text(v)
    if isinstance(v, Opq) and v.ty == 'LitInt':
        return Seq('str', [O(('display', v.term))])
    if isinstance(v, Opq) and v.ty == 'char' or isinstance(v, str):
        return Seq('str', [symspec.char_text(v)])
    if isinstance(v, int) and not isinstance(v, bool):
        return Seq('str', [K(str(v))])
    if v is ERR or v is POS:
        return Seq('str', [O(('message', W().fresh('msg')))])
    raise Unsupported('display of %r' % (v,))


# functions of texts: see strs.py

def sfn(name, t, *args):
    """the text a function makes of the text t"""
    if W().known(('cont', t, args[0])) is False if name in ('seg0', 'after', 'rbefore', 'rafter', 'replacen', 'replall') else False:
        return Seq('str', [O(t)])
    u = ('sfn', name, t) + args
    if name in ('trim', 'trims', 'trime') and strs.root(t) == t and strs.sort(t) in ('ident', 'word', 'kebab'):
        return Seq('str', [O(t)])    # no white space in names
    if strs.same(W(), u, t):
        return Seq('str', [O(t)])
    return Seq('str', [O(u)])


def text_fn(v, name, *args):
    s = str_of(v)
    k = sx.const_of(s)
    if k is not None:
        k = strs.FN[name](k, *args)
        return Seq('str', [K(k)] if k else [])
    return sfn(name, one_text(s), *args)


def one_text(s):
    ps = [p for p in sx.flat(s.parts) if not (isinstance(p, K) and not p.s)]
    if len(ps) != 1 or not isinstance(ps[0], O) or ps[0].ety or ps[0].unf:
        raise Unsupported('a function of a computed text')
    return ps[0].term


def pattern(c, v):
    """a pattern that is a character or a text"""
    if isinstance(v, (Seq, str)):
        p = const_str(v)
        if not p:
            raise Unsupported('an empty pattern')
        return p
    return None


def plain(name, fn):
    def f(c):
        return text_fn(c.v(0), fn)
    METHODS[('str', name)] = f


for _n, _f in (('trim', 'trim'), ('trim_start', 'trims'), ('trim_end', 'trime'), ('to_ascii_lowercase', 'aslower'),
               ('to_ascii_uppercase', 'asupper'), ('to_lowercase', 'lower'), ('to_uppercase', 'upper')):
    plain(_n, _f)


def trims(name, fn):
    def f(c):
        p = pattern(c, c.v(1))
        if p is None:
            raise Unsupported(c.name)
        return text_fn(c.v(0), fn, p)
    METHODS[('str', name)] = f


for _n, _f in (('trim_start_matches', 'tsm'), ('trim_end_matches', 'tem'), ('trim_matches', 'tm')):
    trims(_n, _f)


@method(('LitInt', 'suffix'))
def lit_suffix(c):
    return sfn('suffix', ('display', c.v(0).term))


@method(('LitInt', 'base10_digits'))
def lit_digits(c):
    return sfn('digits', ('display', c.v(0).term))


@method(('str', 'strip_prefix'))
def strip_prefix(c):
    p = pattern(c, c.v(1))
    s = str_of(c.v(0))
    if p is None:
        raise Unsupported(c.name)
    return some(text_fn(s, 'skip', len(p))) if sx.decide_str('sw', s, p) else NONE


@method(('str', 'strip_suffix'))
def strip_suffix(c):
    p = pattern(c, c.v(1))
    s = str_of(c.v(0))
    if p is None:
        raise Unsupported(c.name)
    return some(text_fn(s, 'drop', len(p))) if sx.decide_str('ew', s, p) else NONE


@method(('str', 'split_once'))
def split_once(c):
    p = pattern(c, c.v(1))
    s = str_of(c.v(0))
    if p is None:
        raise Unsupported(c.name)
    return some(Tup([text_fn(s, 'seg0', p), text_fn(s, 'after', p)])) if sx.decide_str('cont', s, p) else NONE


@method(('str', 'rsplit_once'))
def rsplit_once(c):
    p = pattern(c, c.v(1))
    s = str_of(c.v(0))
    if p is None or len(p) != 1:
        raise Unsupported(c.name)
    return some(Tup([text_fn(s, 'rbefore', p), text_fn(s, 'rafter', p)])) if sx.decide_str('cont', s, p) else NONE


def segs(t, d):
    """the pieces of a text between the d"""
    if W().known(('cont', t, d)) is False:
        return [U(Seq('str', [O(t)]))]
    return [O(('segs', t, d), 'str')]


@method(('str', 'split'))
def s_split(c):
    p = pattern(c, c.v(1))
    s = str_of(c.v(0))
    if p is None:
        raise Unsupported(c.name)
    k = sx.const_of(s)
    if k is not None:
        return It(tuple(U(Seq('str', [K(x)] if x else [])) for x in k.split(p)))
    return It(tuple(segs(one_text(s), p)))


@method(('str', 'splitn'))
def s_splitn(c):
    n, p = c.v(1), pattern(c, c.v(2))
    s = str_of(c.v(0))
    if p is None or not isinstance(n, int) or not 1 <= n <= 4:
        raise Unsupported(c.name)
    out = []
    for _ in range(n - 1):
        if not sx.decide_str('cont', s, p):
            break
        out.append(U(text_fn(s, 'seg0', p)))
        s = text_fn(s, 'after', p)
    return It(tuple(out) + (U(s),))


@method(('str', 'rsplitn'))
def s_rsplitn(c):
    n, p = c.v(1), pattern(c, c.v(2))
    s = str_of(c.v(0))
    if p is None or len(p) != 1 or not isinstance(n, int) or not 1 <= n <= 4:
        raise Unsupported(c.name)
    out = []
    for _ in range(n - 1):
        if not sx.decide_str('cont', s, p):
            break
        out.append(U(text_fn(s, 'rafter', p)))
        s = text_fn(s, 'rbefore', p)
    return It(tuple(out) + (U(s),))


@method(('str', 'find'), ('str', 'rfind'))
def s_find(c):
    p = pattern(c, c.v(1))
    if p is None:
        found = any_of(c, It(symspec.chars_of(c.v(0))), lambda ch: c.m.apply(c.args[1], [ch]))
    else:
        found = sx.decide_str('cont', str_of(c.v(0)), p)
    return some(Opq('usize', ('at', W().fresh('at')))) if found else NONE


@method(('str', 'matches'))
def s_matches(c):
    p = pattern(c, c.v(1))
    t = one_text(str_of(c.v(0)))
    if p is None or len(p) != 1:
        raise Unsupported(c.name)
    # as many as there are pieces, but one
    more = W().decide(('cont', t, p))
    return It(tuple([O(('segs', ('sfn', 'after', t, p), p), 'str')] if more else []))


@method(('str', 'replacen'))
def s_replacen(c):
    a, b, n = const_str(c.v(1)), const_str(c.v(2)), c.v(3)
    if not a or not isinstance(n, int):
        raise Unsupported(c.name)
    return text_fn(c.v(0), 'replacen', a, b, n)


@method(('str', 'eq_ignore_ascii_case'))
def eq_ignore(c):
    a, b = str_of(c.v(0)), str_of(c.v(1))
    if sx.const_of(b) is None:
        a, b = b, a
    k = sx.const_of(b)
    if k is None:
        raise Unsupported(c.name)
    return sx.str_is(text_fn(a, 'aslower'), strs.aslower(k))


@method(('str', 'bytes'))
def s_bytes(c):
    return It(tuple(bytes_of(c.v(0))))


@method(('str', 'as_bytes'), ('String', 'as_bytes'))
def s_as_bytes(c):
    return Seq('vec', bytes_of(c.v(0)))


def bytes_of(s):
    out = []
    for p in symspec.chars_of(s):
        if isinstance(p, U) and isinstance(p.v, str) and p.v.isascii():
            out.append(U(ord(p.v)))
        elif isinstance(p, O):
            out.append(O(p.term, 'u8'))
        else:
            raise Unsupported('bytes of a computed text')
    return out


@method(('str', 'contains'))
def s_contains(c):
    p = c.v(1)
    if isinstance(p, (Seq, str)) and getattr(p, 'kind', 'str') == 'str':
        return sx.decide_str('cont', str_of(c.v(0)), const_str(p))
    if isinstance(p, Seq):
        cs = [const_str(c.m.val(x.v)) for x in sx.flat(p.parts)]
        return any(sx.decide_str('cont', str_of(c.v(0)), ch) for ch in cs)
    return any_of(c, It(symspec.chars_of(c.v(0))), lambda ch: c.m.apply(c.args[1], [ch]))


@method(('str', 'starts_with'))
def s_starts_with(c):
    p = c.v(1)
    if isinstance(p, (Seq, str)) and getattr(p, 'kind', 'str') == 'str':
        return sx.decide_str('sw', str_of(c.v(0)), const_str(p))
    if isinstance(p, Seq):
        cs = [const_str(c.m.val(x.v)) for x in sx.flat(p.parts)]
        return any(sx.decide_str('sw', str_of(c.v(0)), ch) for ch in cs)
    ch = symspec.first_char(c.v(0))
    return ch is not None and c.m.apply(c.args[1], [ch])


@method(('str', 'ends_with'))
def s_ends_with(c):
    p = c.v(1)
    if isinstance(p, (Seq, str)) and getattr(p, 'kind', 'str') == 'str':
        return sx.decide_str('ew', str_of(c.v(0)), const_str(p))
    raise Unsupported(c.name)


def replace_all(s, a, b):
    if len(a) == 1:
        return symspec.replace_char(s, a, b)
    return text_fn(s, 'replall', a, b)


@method(('str', 'replace'))
def s_replace(c):
    v = c.v(1)
    if isinstance(v, Seq) and v.kind != 'str':
        s = c.v(0)
        for x in sx.flat(v.parts):
            ch = const_str(c.m.val(x.v))
            if ch in const_str(c.v(2)):
                raise Unsupported('replace')
            s = replace_all(s, ch, const_str(c.v(2)))
        return s
    a, b = const_str(v), const_str(c.v(2))
    if not a:
        raise Unsupported('replace of nothing')
    return replace_all(c.v(0), a, b)


@method(('str', 'chars'))
def s_chars(c):
    return It(tuple(symspec.chars_of(c.v(0))))


@method(('char', 'is_ascii_uppercase'))
def ch_upper(c):
    return symspec.char_upper(c.v(0))


@method(('char', 'to_ascii_lowercase'))
def ch_lower(c):
    return symspec.char_lower(c.v(0))


def char_pred(name, fn):
    def f(c):
        ch = c.v(0)
        if isinstance(ch, int):
            ch = chr(ch)
        if isinstance(ch, str):
            return fn(ch)
        return W().decide((name, ch.term))
    METHODS[('char', name)] = f


    if name.startswith('is_ascii'):
        METHODS[('u8', name)] = f


for _n, _f in sx.CHAR_PREDS.items():
    if _n != 'upper':
        char_pred(_n, _f)


@method(('u8', 'is_ascii_uppercase'))
def u8_upper(c):
    return symspec.char_upper(chr(c.v(0)) if isinstance(c.v(0), int) else c.v(0))


@free('fmt::format')
def format_(c):
    return c.v(0)


@method(('Arguments', 'new_v1'), ('Arguments', 'new_const'))
def arguments(c):
    pieces = [p.v for p in sx.flat(seq_of(c, c.args[0]).parts)]
    args = [p.v for p in sx.flat(seq_of(c, c.args[1]).parts)] if len(c.args) > 1 else []
    out = Seq('str')
    for i in range(max(len(pieces), len(args))):
        if i < len(pieces):
            out = out + c.m.val(pieces[i])
        if i < len(args):
            out = out + c.m.val(args[i])
    return out


@method(('Argument', 'new_display'), ('Argument', 'new_debug'))
def argument(c):
    try:
        if c.name.endswith('debug'):
            raise Unsupported('')
        return display(c, c.v(0))
    except Unsupported:
        return Seq('str', [O(('message', W().fresh('msg')))])


# ----------------------------------------------------- proc_macro2 and quote --

@method(('TokenStream', 'new'))
def ts_new(c):
    return Seq('tok')


@trait(('ToTokens', 'to_tokens'))
def to_tokens(c):
    v = c.v(0)
    head = mir.ty_last(c.self or '')
    if v is TOK and head in sx.TOK_BY_NAME:
        append(c, c.args[1], U(Tk('p', sx.TOK_BY_NAME[head])))
    else:
        append(c, c.args[1], *tokens_of(c, v))
    return UNIT


@trait(('ToTokens', 'into_token_stream'), ('ToTokens', 'to_token_stream'))
def into_token_stream(c):
    v = c.v(0)
    head = mir.ty_last(c.self or '')
    if v is TOK and head in sx.TOK_BY_NAME:
        return Seq('tok', [U(Tk('p', sx.TOK_BY_NAME[head]))])
    return Seq('tok', tokens_of(c, v))


@trait(('TokenStreamExt', 'append'))
def ts_append(c):
    append(c, c.args[0], *tokens_of(c, c.v(1)))
    return UNIT


@trait(('TokenStreamExt', 'append_all'))
def ts_append_all(c):
    consume(c, c.args[1], lambda x: append(c, c.args[0], *tokens_of(c, x)))
    return UNIT


PUNCT = {'add': '+', 'add_eq': '+=', 'and': '&', 'and_and': '&&', 'and_eq': '&=', 'at': '@', 'bang': '!', 'caret': '^',
         'caret_eq': '^=', 'colon': ':', 'colon2': '::', 'comma': ',', 'div': '/', 'div_eq': '/=', 'dot': '.',
         'dot2': '..', 'dot3': '...', 'dot_dot_eq': '..=', 'eq': '=', 'eq_eq': '==', 'ge': '>=', 'gt': '>',
         'le': '<=', 'lt': '<', 'mul_eq': '*=', 'ne': '!=', 'or': '|', 'or_eq': '|=', 'or_or': '||', 'pound': '#',
         'question': '?', 'rarrow': '->', 'larrow': '<-', 'rem': '%', 'rem_eq': '%=', 'fat_arrow': '=>', 'semi': ';',
         'shl': '<<', 'shl_eq': '<<=', 'shr': '>>', 'shr_eq': '>>=', 'star': '*', 'sub': '-', 'sub_eq': '-='}
DELIM = {'Parenthesis': '(', 'Brace': '{', 'Bracket': '['}


def text_token(s):
    """an identifier of the generated code"""
    if s.startswith('r#'):
        return Id(Seq('str', [K(s[2:])]), 'yes')
    return Id(Seq('str', [K(s)]))


def push(c, what):
    name = what[5:]
    sp = name.endswith('_spanned')
    if sp:
        name = name[:-8]
    ts = c.args[0]
    rest = c.args[2:] if sp else c.args[1:]
    if name in PUNCT:
        append(c, ts, U(Tk('p', PUNCT[name])))
    elif name == 'underscore':
        append(c, ts, U(text_token('_')))
    elif name == 'ident':
        append(c, ts, U(text_token(const_str(c.m.val(rest[0])))))
    elif name == 'lifetime':
        append(c, ts, U(Tk('x', const_str(c.m.val(rest[0])))))
    elif name == 'group':
        d = sx.variant(c.m.val(rest[0]))
        if d not in DELIM:
            raise Unsupported('a group without delimiters')
        append(c, ts, U(Tk('g', DELIM[d], c.m.val(rest[1]))))
    else:
        raise Unsupported(what)
    return UNIT


@free('__private::parse')
def quote_parse(c):
    """quote::__private::parse (tokens of a text) or syn::__private::parse"""
    if len(c.args) == 1:
        return parse_quote(c)
    append(c, c.args[0], *text_tokens(c, const_str(c.v(1))))
    return UNIT


@free('__private::parse_spanned')
def quote_parse_spanned(c):
    append(c, c.args[0], *text_tokens(c, const_str(c.v(2))))
    return UNIT


def text_tokens(c, s):
    import conc
    v = conc.str_value(s)
    if v is not None:
        return (U(Tk('s', Seq('str', [K(v)] if v else []))),)
    if re.fullmatch(r'[A-Za-z_]\w*', s):
        return (U(text_token(s)),)
    if re.fullmatch(r"\d\w*|'.'|\d+\.\d+", s):
        return (U(Tk('lit', ('text', s))),)
    raise Unsupported('tokens of ' + s)


@free('__private::get_span')
def get_span(c):
    return SPAN


@trait(('RepIteratorExt', 'quote_into_iter'), ('RepAsIteratorExt', 'quote_into_iter'), ('RepToTokensExt', 'quote_into_iter'))
def quote_into_iter(c):
    return Tup([as_iter(c, c.args[0]), UNIT])


@trait(('RepToTokensExt', 'next'))
def quote_next(c):
    return some(c.v(0))


@trait(('BitOr', 'bitor'), ('CheckHasIterator', 'check'))
def has_iter(c):
    if isinstance(c.v(0), bool):
        return c.v(0) | c.v(1)
    return UNIT


@method(('Ident', 'new'))
def ident_new(c):
    s = str_of(c.v(0))
    k = sx.const_of(s)
    if k == '_':
        return Id(s, 'no')
    need_ident(s, 'Ident::new')
    return Id(s, 'no')


@method(('Ident', 'new_raw'))
def ident_new_raw(c):
    s = str_of(c.v(0))
    need_ident(s, 'Ident::new_raw')
    for x in sx.SPECIAL:
        if sx.str_is(s, x):
            panics('Ident::new_raw("%s")' % x)
    return Id(s, 'yes')


@trait(('IdentExt', 'unraw'))
def unraw(c):
    return symspec.unraw(c.v(0))


@method(('LitStr', 'new'))
def litstr_new(c):
    return Adt('LitStr', None, {'text': str_of(c.v(0))})


@method(('LitStr', 'value'))
def litstr_value(c):
    return symspec.litstr_value(c.v(0))


@method(('LitBool', 'new'))
def litbool_new(c):
    raise Unsupported('LitBool')


@method(('Literal', 'string'))
def literal_string(c):
    return Tk('s', str_of(c.v(0)))


@method(('Punct', 'new'))
def punct_new(c):
    ch, sp = c.v(0), c.v(1)
    if isinstance(ch, str) and sx.variant(sp) == 'Alone':
        return Tk('p', ch)
    if isinstance(ch, Opq) and ch.term[0] == 'pch':
        if isinstance(sp, Opq) and sp.term == ('spacing', ch.term[1]):
            return Opq('Punct', ch.term[1])
        return Tk('x', ('punct', ch.term[1], sx.variant(sp)))
    raise Unsupported('a joint punctuation character')


@method(('Punct', 'as_char'))
def punct_char(c):
    v = c.v(0)
    if isinstance(v, Tk) and v.k == 'p' and len(v.a) == 1:
        return v.a
    if isinstance(v, Opq):
        return Opq('char', ('pch', v.term))
    raise Unsupported('as_char of %r' % (v,))


@method(('Punct', 'spacing'))
def punct_spacing(c):
    v = c.v(0)
    if isinstance(v, Tk) and v.k == 'p' and len(v.a) == 1:
        return Adt('Spacing', 'Alone')
    if isinstance(v, Opq):
        return Opq('Spacing', ('spacing', v.term))
    raise Unsupported('spacing of %r' % (v,))


@method(('Group', 'delimiter'))
def group_delim(c):
    v = c.v(0)
    if isinstance(v, Tk) and v.k == 'g':
        return Adt('Delimiter', {b: a for a, b in DELIM.items()}[v.a])
    if isinstance(v, Opq):
        return Opq('Delimiter', ('delim', v.term[1] if v.term[0] == 'fld' and v.term[2:] in TREE else v.term))
    raise Unsupported('delimiter of %r' % (v,))


@method(('Group', 'stream'))
def group_stream(c):
    v = c.v(0)
    if isinstance(v, Tk) and v.k == 'g':
        return v.b
    if isinstance(v, Opq):
        return Seq('tok', [O(('stream', v.term))])
    raise Unsupported('stream of %r' % (v,))


@method(('Group', 'new'))
def group_new(c):
    d = sx.variant(c.v(0))
    if d not in DELIM:
        raise Unsupported('a group without delimiters')
    return Tk('g', DELIM[d], c.v(1))


@method(('Punct', 'set_span'), ('Ident', 'set_span'), ('LitStr', 'set_span'), ('Group', 'set_span'), ('Literal', 'set_span'))
def set_span(c):
    return UNIT


@method(('Span', 'join'))
def span_join(c):
    return Opq('Option<Span>', ('joined',))


@method(('Span', 'call_site'), ('Span', 'mixed_site'), ('DelimSpan', 'join'), ('Span', 'resolved_at'),
        ('Span', 'located_at'), ('DelimSpan', 'open'), ('DelimSpan', 'close'), ('ParseBuffer', 'span'), ('Error', 'span'))
def span_(c):
    return SPAN


@trait(('Spanned', 'span'))
def spanned(c):
    return SPAN


# ------------------------------------------------------------------ diagnostics --

@trait(('DiagnosticExt', 'spanned_range'))
def diag_range(c):
    return Adt('Diagnostic', None, {'level': c.v(1)})


@method(('Diagnostic', 'spanned'))
def diag_spanned(c):
    return Adt('Diagnostic', None, {'level': c.v(1)})


@method(('Diagnostic', 'new'))
def diag_new(c):
    return Adt('Diagnostic', None, {'level': c.v(0)})


@method(('Diagnostic', 'help'), ('Diagnostic', 'suggestion'), ('Diagnostic', 'note'), ('Diagnostic', 'span_help'),
        ('Diagnostic', 'span_note'), ('Diagnostic', 'span_suggestion'))
def diag_help(c):
    return c.v(0)


def diag_level(c, v):
    return sx.variant(v.f['level'])


@method(('Diagnostic', 'emit'))
def diag_emit(c):
    if diag_level(c, c.v(0)) == 'Error':
        W().E.append(('T', frozenset()))
    return UNIT


@method(('Diagnostic', 'abort'))
def diag_abort(c):
    W().E.append(('T', frozenset()))
    raise Abort()


@free('proc_macro_error2::set_dummy', 'proc_macro_error2::append_dummy')
def set_dummy(c):
    return UNIT


@free('proc_macro_error2::abort_if_dirty', 'abort_now::abort_now', 'diagnostic::abort_now')
def abort_if_dirty(c):
    raise Unsupported(c.name)


@method(('Error', 'new'), ('Error', 'new_spanned'), ('ParseBuffer', 'error'), ('Lookahead1', 'error'))
def error_new(c):
    return ERR


@method(('Error', 'to_compile_error'), ('Error', 'into_compile_error'))
def to_compile_error(c):
    return Seq('tok', [U(Tk('x', 'compile_error'))])


@method(('Error', 'combine'))
def error_combine(c):
    return UNIT


# ------------------------------------------------------------------------ syn --

def buf(c, i=0):
    v = c.m.val(c.args[i])
    if not isinstance(v, PB):
        raise Unsupported('%s of %r' % (c.name, v))
    return v


def cur(c, pb):
    return c.m.load(pb.cell, ())


def setcur(c, pb, cursor):
    c.m.heap[pb.cell] = symspec.canon(cursor)


def kind_of(c, v):
    """the kind of token a peek argument stands for"""
    v = c.m.val(v)
    if not isinstance(v, Fn):
        raise Unsupported('peek of %r' % (v,))
    p = mir.norm_path(rust.subst(v.path, v.env))
    return kind_name(p['segs'], p['self'])


def kind_name(segs, selfty=None):
    last = segs[-1]
    if last == 'peek_any':
        return 'IdentAny'
    if last in ('Brace', 'Bracket', 'Paren', 'Ident', 'Lit', 'LitStr', 'LitInt'):
        return last
    if last == 'End':
        return 'eof'
    if 'kw' in segs[:-1]:
        return 'kw:' + last
    if last in sx.TOK_BY_NAME and last != 'Underscore':
        return sx.TOK_BY_NAME[last]
    if 'token' in segs[:-1] and re.fullmatch('[A-Z][a-z]+', last) and last.lower() in symspec.STRICT_KW | {
            'union', 'default', 'auto', 'raw', 'macro'}:
        return 'kw:' + last.lower()
    raise Unsupported('peek of ' + '::'.join(segs))


@method(('ParseBuffer', 'peek'))
def pb_peek(c):
    return c.h.is_(cur(c, buf(c)), kind_of(c, c.args[1]))


@method(('ParseBuffer', 'peek2'))
def pb_peek2(c):
    return c.h.peek2(cur(c, buf(c)), kind_of(c, c.args[1]))


@method(('ParseBuffer', 'peek3'))
def pb_peek3(c):
    cu = cur(c, buf(c))
    if cu[0] == 'tc':
        raise Unsupported('peek3')
    if cu[0] == 'end' or W().known(('is', 'eof', cu)):
        return False
    return c.h.peek2(('sk', cu), kind_of(c, c.args[1]))


@method(('ParseBuffer', 'is_empty'))
def pb_is_empty(c):
    return c.h.eof(cur(c, buf(c)))


@method(('ParseBuffer', 'fork'))
def pb_fork(c):
    pb = buf(c)
    new = PB(c.m.alloc(cur(c, pb)))
    c.h.uf_new(new.cell)
    return new


@trait(('Speculative', 'advance_to'))
def pb_advance_to(c):
    a, b = buf(c, 0), buf(c, 1)
    ca, cb = cur(c, a), cur(c, b)
    if ca[0] != 'tc' and symspec.root(ca) != symspec.root(cb):
        panics('advance_to another input')
    setcur(c, a, cb)
    c.h.uf_union(a.cell, b.cell)
    return UNIT


def token_parse(c, pb, kind):
    cu = cur(c, pb)
    h = c.h
    try:
        v, c2 = h.eat(cu, kind)
    except SFail:
        if kind in ('LitStr', 'LitInt', 'Path') and cu[0] != 'tc':
            setcur(c, pb, ('errcur', kind, cu))
        return err()
    setcur(c, pb, c2)
    return ok(v)


def parse_as(c, pb, ty):
    """<ty as Parse>::parse"""
    t = ty.strip()
    n = norm_ty(t)
    head = split_gen(n)[0]
    f = c.m.prog.impls.get((head, 'Parse', 'parse'))
    if f is not None:
        return c.h.local(c.m, f, [pb], {}, None)
    if head == 'TokenStream':
        cu = cur(c, pb)
        r = c.h.rest(cu)
        setcur(c, pb, c.h.end(cu))
        return ok(r)
    if head == 'TokenTree':
        return token_parse(c, pb, 'TokenTree')
    if head in ('Ident', 'Lit', 'LitStr', 'LitInt', 'Path'):
        return token_parse(c, pb, head)
    if head == 'Option':
        inner = mir.norm_path(t)['gens'][-1][1][0]
        kind = kind_name(mir.segs_of(inner)[0])
        if not c.h.is_(cur(c, pb), kind):
            return ok(NONE)
        r = parse_as(c, pb, inner)
        return ok(some(r.f['_0'])) if r.var == 'Ok' else r
    segs, _ = mir.segs_of(mir.strip_ref(t))
    if 'token' in segs or 'kw' in segs:
        return token_parse(c, pb, kind_name(segs))
    raise Unsupported('parsing of ' + ty)


@trait(('Parse', 'parse'))
def trait_parse(c):
    return parse_as(c, buf(c), c.self)


@method(('ParseBuffer', 'parse'))
def pb_parse(c):
    return parse_as(c, buf(c), c.gens[0])


@method(('ParseBuffer', 'call'))
def pb_call(c):
    return c.m.apply(c.args[1], [buf(c)])


@trait(('IdentExt', 'parse_any'))
def parse_any(c):
    return token_parse(c, buf(c), 'IdentAny')


def group_parse(d):
    def f(c):
        pb = buf(c)
        cu = cur(c, pb)
        try:
            inner, c2 = c.h.enter(cu, d)
        except SFail:
            return err()
        setcur(c, pb, c2)
        new = PB(c.m.alloc(inner))
        c.h.uf_enter(c.m, new.cell, pb.cell)
        return ok(Adt({'Brace': 'Braces', 'Bracket': 'Brackets', 'Paren': 'Parens'}[d], None,
                      {'token': TOK, 'content': new}))
    return f


FREE['__private::parse_braces'] = group_parse('Brace')
FREE['__private::parse_brackets'] = group_parse('Bracket')
FREE['__private::parse_parens'] = group_parse('Paren')
sx.EXTERN_FIELDS[('Braces', None)] = [('token', 'TOK'), ('content', 'ParseBuffer')]
sx.EXTERN_FIELDS[('Brackets', None)] = sx.EXTERN_FIELDS[('Braces', None)]
sx.EXTERN_FIELDS[('Parens', None)] = sx.EXTERN_FIELDS[('Braces', None)]


def parse_whole(c, ts, ty):
    """syn::parse2::<ty>(ts)"""
    ps = sx.flat(ts.parts)
    if len(ps) == 1 and isinstance(ps[0], O) and ps[0].term[0] == 'rest':
        cu = ps[0].term[1]
    else:
        n = len(c.h.ctoks)
        c.h.ctoks[n] = symspec.conc_tokens(ts)
        cu = ('tc', n, 0)
    pb = PB(c.m.alloc(cu))
    c.h.uf_new(pb.cell)
    n = len(c.h.entered)
    r = parse_as(c, pb, ty)
    if sx.variant(r) != 'Ok':
        return err()
    if c.h.leftover(c.m, pb.cell, n):
        return err()
    del c.h.entered[n:]
    return r if c.h.eof(cur(c, pb)) else err()


@free('syn::parse2')
def parse2(c):
    return parse_whole(c, seq_of(c, c.args[0]), c.gens[0])


def parse_quote(c):
    r = parse_whole(c, seq_of(c, c.args[0]), c.gens[0])
    k, x = unwrap(c, r)
    if k != 'Ok':
        panics('parse_quote! of something else')
    return x


@method(('Path', 'get_ident'))
def get_ident(c):
    return opt(symspec.path_single(c.v(0)))


@method(('Path', 'is_ident'))
def is_ident_(c):
    i = symspec.path_single(c.v(0))
    return i is not None and symspec.ident_is(i, const_str(c.v(1)))


# ------------------------------------------------------------------------ host --

SPAN_TYPES = ('Span', 'DelimSpan', 'SpanRange')


class Host(SymS):
    upper = staticmethod(symspec.char_upper)

    """the contracts and models, as the machine sees them"""

    def __init__(self, prog, cut=None, lost=()):
        SymS.__init__(self, cut)
        self.prog = prog
        self.inline |= set(lost)
        self.uf = {}
        self.entered = []
        self.cutkeys = {}
        for n, k in spec.CUTS.items():
            if n not in lost:
                self.cutkeys[k.key] = n

    # -- groups whose remaining tokens syn reports at the end
    def find(self, c):
        while self.uf.get(c, c) != c:
            c = self.uf[c]
        return c

    def uf_new(self, cell):
        self.uf[cell] = cell

    def uf_union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.uf[b] = a

    def uf_enter(self, m, cell, parent):
        self.uf[cell] = self.find(parent)
        self.entered.append(cell)

    def leftover(self, m, cell, start=0):
        """are there tokens left in a group of the input of `cell`?"""
        r = self.find(cell)
        return any(self.find(c) == r and not self.eof(m.load(c, ())) for c in self.entered[start:]
                   if c in m.heap)

    # -- the hooks of the machine
    def first(self, m, seq):
        if not isinstance(seq, Seq):
            raise Unsupported('first of %r' % (seq,))
        return m.it_some(It(seq.parts))

    def assoc_const(self, m, t):
        p = mir.norm_path(t)
        if p['self']:
            key = (split_gen(norm_ty(p['self']))[0], p['trait'] and mir.ty_last(p['trait']), p['segs'][-1])
            f = m.prog.impls.get(key)
            return f if f is not None and f.is_const else None
        if len(p['segs']) > 1:
            return m.prog.impls.get((p['segs'][-2], None, p['segs'][-1])) if m.prog.impls.get(
                (p['segs'][-2], None, p['segs'][-1])) is not None and m.prog.impls[
                    (p['segs'][-2], None, p['segs'][-1])].is_const else None
        return None

    def invariant(self, m, a):
        """the invariants of the data types, checked wherever a value is built"""
        if a.ty == 'KebabIdent' and set(a.f) >= {'repr', 'spans'}:
            if not sx.seq_nonempty(a.f['spans']):
                raise Violated('invariant', 'a KebabIdent without spans', ('C02',))
            repr_parts(a.f['repr'])
        if a.ty == 'Tag' and a.var == 'Component':
            component_path(a.f['_0'])

    # -- calls
    def call(self, *args):
        if isinstance(args[0], str):
            return SymS.call(self, *args)
        return self.call_fn(*args)

    def call_fn(self, m, callee, args, env):
        r = RESOLVED.get(callee)
        if r is None:
            r = RESOLVED[callee] = resolve(m.prog, callee)
        kind, x, p = r
        if kind == 'local':
            return self.local(m, x, args, self.gen_env(m, x, p, env), p)
        c = Call()
        c.m, c.h, c.args, c.env = m, self, args, env
        c.self, c.gens = p['self'], p['gens'][-1][1] if p['gens'] and p['gens'][-1][0] == len(p['segs']) - 1 else []
        if p['self'] is None and len(p['segs']) > 1:
            c.self = self_text(p)
        c.name = callee_name(callee)
        if kind == 'push':
            return push(c, x)
        if kind == 'ctor':
            return self.ctor(m, x, args)
        if kind == 'panic':
            panics(x)
        if kind == 'unknown' and m.dest_ty and not UNIQUE.search(callee) and (ENV_ROOTS.search(callee) or any(rust.is_env(m.val(a)) for a in args)):
            # a value from outside: anything (whatever it is made of can change it)
            vals = [m.val(a) for a in args]
            if not any(isinstance(v, (rust.Clo, PB, It)) for v in vals) and \
                    not any(isinstance(a, Ref) and not rust.is_env(v) and not isinstance(v, (Seq, Opq))
                            for a, v in zip(args, vals)):
                t = norm_ty(m.dest_ty)
                if t == 'bool':
                    return W().decide(('envb', W().fresh('env')))
                return sx.mk_opq(t, W().fresh('env'))
        if kind == 'unknown':
            raise Unsupported('call of ' + callee[:200])
        MODELLED.add(x.__name__ + ': ' + re.sub(r'<.*', '', callee_name(callee)) if False else kind + ' ' + short(p))
        return x(c)

    def gen_env(self, m, f, p, env):
        names = m.prog.generics.get(f.name.rsplit('::', 1)[-1]) or []
        gens = []
        if p and p['gens'] and p['gens'][-1][0] == len(p['segs']) - 1:
            gens = [g for g in p['gens'][-1][1] if not g.strip().startswith("'")]
        return dict(zip(names, gens)) if names and len(gens) >= len(names) else {}

    def ctor(self, m, x, args):
        ty, var = x
        names = sx.field_names(ty, var)
        a = Adt(ty, var, {(names[i] if names else '_%d' % i): v for i, v in enumerate(args)})
        self.invariant(m, a)
        return a

    def local(self, m, f, args, env, p):
        """a function of the crate: its contract, or its body"""
        key = f.key
        if key[0] is None:
            key = (None, None, f.name.rsplit('::', 1)[-1])
            g = ()
            if env and key not in self.cutkeys:
                g = tuple(env.values())
            key = key + g
        name = self.cutkeys.get(key)
        if name is not None:
            return self.contract(m, name, args, f)
        if split_gen(norm_ty(f.ret))[0] in SPAN_TYPES and '{closure' not in f.name:
            SPAN_FNS.add(f.name)
            return SPAN
        return m.run(f, args, env)

    def contract(self, m, name, args, f):
        cut = spec.CUTS[name]
        CALLED.add((self.cut.name if self.cut else None, name))
        if cut.kind == 'parse':
            pb = m.val(args[0])
            c0 = m.load(pb.cell, ())
            v, c2 = self.parse_contract(name, c0)
            m.heap[pb.cell] = symspec.canon(c2)
            return err() if v is None else ok(v)
        vals = [m.val(a) for a in args]
        if name == 'turbofishify':
            return self.turbo(vals[0])
        if name == 'new_raw_ident':
            s = str_of(vals[0])
            need_ident(s, 'new_raw_ident')
            return Id(s, 'auto')
        if cut.key[2] == 'to_tokens':
            r = self.tok_contract(name, [vals[0]])
            c = Call()
            c.m, c.h, c.name = m, self, name
            append(c, args[1], *r.parts)
            return UNIT
        if cut.key[2] == 'mview_impl':
            t = vals[0].parts
            if self.cut is None or self.cut.name != 'entry':
                raise Unsupported('recursive expansion')
            if len(t) == 1 and isinstance(t[0], O) and t[0].term[0] == 'rest':
                return self.expand(t[0].term[1])
            raise Violated('precondition', 'the macro expands something else than its input', ('C01', 'C04', 'C11'))
        if cut.generic == 'some':
            comp = name in ('component_tok', 'slot_tok')
            if sx.is_variant(sx.field(vals[0], None, 'tag'), 'Component') != comp:
                return NONE
            return some(self.tok_contract(name, vals))
        vals = vals[:len(cut.args)]
        return self.tok_contract(name, vals)


def component_path(p):
    """a component named by a single identifier is not named by a raw one"""
    if isinstance(p, Opq):
        if p.term[0] == 'path':
            c = p.term[1]
            n = ('sk', c)
            # a path that starts like this is not a single identifier
            if any(W().known(('is', k, x)) for k, x in (('::', c), ('::', n), ('<', n))):
                return
        raise Unsupported('invariant: the path of a component is %r' % (p,))
    i = symspec.path_single(p)
    if i is None or isinstance(i, Id) and i.raw == 'no' or isinstance(i, Opq) and W().known(('raw', i.term)) is False:
        return
    raise Violated('invariant', 'a component that may keep its r#', ('C20', 'C16'))


def repr_parts(s):
    ps = [p for p in s.parts if not (isinstance(p, K) and not p.s)]
    if not ps:
        raise Violated('invariant', 'a KebabIdent without a name', ('C02', 'C07'))
    for i, p in enumerate(ps):
        if isinstance(p, K) and re.fullmatch(r'[-\w]+' if i else r'[-A-Za-z_][-\w]*', p.s):
            continue
        if isinstance(p, O) and p.term[0] == 'unraw':
            continue
        if isinstance(p, O) and i and p.term[0] in ('display', 'lacc'):
            continue
        if isinstance(p, O) and p.term[0] == 'fld' and p.term[3] == 'repr':
            continue
        if isinstance(p, O) and p.term[0] == 'unk':
            raise Violated('loop', 'the rounds of the loop build another name than the contract', ('C07', 'C01'))
        if isinstance(p, O) and p.term[0] == 'disp' and W().known(('raw', p.term[1])) is None:
            raise Violated('invariant', 'a name that may keep its r#', ('C07',))
        raise Unsupported('invariant: the name of a KebabIdent is %r' % (p,))


ENV_ROOTS = re.compile(r'(^|[<:& ])((std|core)::)?(env::(var|var_os|vars|args|args_os|current_dir|temp_dir|current_exe)\b|time::\w+::(now|elapsed)|'
                       r'(SystemTime|Instant)::now|process::id|thread::current|RandomState::new|fs::(read|read_to_string|metadata|exists)|'
                       r'Path::(exists|is_file|is_dir)|'
                       r'Span::(start|end|source_text|byte_range|file|local_file|line|column|unwrap)$)')
UNIQUE = re.compile(r'OnceLock|LazyLock|OnceCell|Lazy|RefCell|Mutex|RwLock')
RESOLVED = {}
MODELLED = set()
SPAN_FNS = set()
CALLED = set()


def callee_name(s):
    """without the trailing generics"""
    s = s.strip()
    while s.endswith('>'):
        d = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == '>' and s[i - 1] not in '-=':
                d += 1
            elif s[i] == '<':
                d -= 1
                if d == 0:
                    break
        if s[i - 2:i] != '::':
            break
        s = s[:i - 2]
    return s


def short(p):
    if p['self']:
        return '<%s as %s>::%s' % (norm_ty(p['self']), p['trait'] and mir.ty_last(p['trait']), p['segs'][-1])
    return '::'.join(p['segs'][-2:])


def self_text(p):
    """the self type of an inherent method, with its generics"""
    i = len(p['segs']) - 2
    s = p['segs'][i]
    m = re.match(r'^<impl (.*)>$', s)
    if m:
        return m.group(1)
    for j, g in p['gens']:
        if j == i:
            return '%s<%s>' % (s, ', '.join(g))
    return s


def inherent_head(seg):
    m = re.match(r'^<impl (.*)>$', seg)
    if m:
        t = m.group(1).strip()
        if t.startswith('['):
            return 'slice'
        return split_gen(norm_ty(t))[0]
    return re.sub(r'<.*', '', seg)


PANICS = re.compile(r'(^|::)(panicking::\w+|begin_panic\w*|panic_fmt|unwrap_failed|expect_failed|panic_display|panic_str\w*|'
                    r'unreachable_display|process::abort|process::exit|assert_failed)$')


def resolve(prog, callee):
    """(kind, target, parsed path) of a callee"""
    callee = callee.replace('leptos_mview_core::', '')
    p = mir.norm_path(callee)
    segs = p['segs']
    name = callee_name(callee)
    if p['self'] is not None:
        head = split_gen(norm_ty(p['self']))[0]
        tr = p['trait'] and mir.ty_last(p['trait'])
        key = (head, tr, segs[-1])
        f = prog.impls.get(key)
        if f is not None:
            return 'local', f, p
        if segs[-1].startswith('FIRST_ARG_MUST'):
            return 'std', (lambda c: UNIT), p
        if segs[-1] == '__into_span':
            return 'std', get_span, p
        x = TRAITS.get((tr, segs[-1]))
        if tr == 'Clone' and segs[-1] == 'clone_from':
            return 'unknown', None, p
        if x is not None:
            return 'trait', x, p
        return 'unknown', None, p
    if 'FIRST_ARG_MUST' in callee:
        return 'std', (lambda c: UNIT), p
    if PANICS.search(name) or 'panicking' in segs:
        return 'panic', '%s' % segs[-1], p
    f = prog.funcs.get(name) or prog.funcs.get(callee)
    if f is not None and f.name.rsplit('::', 1)[-1] and not f.is_const:
        if f.blocks:
            return 'local', f, p
    if len(segs) > 1:
        h = inherent_head(segs[-2])
        f = prog.impls.get((h, None, segs[-1]))
        if f is not None:
            return 'local', f, p
        if sx.variants(h) and segs[-1] in sx.variants(h):
            return 'ctor', (h, segs[-1]), p
        if segs[-1] in sx.defs.adts and sx.defs.adts[segs[-1]][0][0] is None:
            return 'ctor', (segs[-1], None), p
        if segs[-2] == 'token' and segs[-1] in sx.TOKENS | set(sx.TOK_BY_NAME):
            return 'std', (lambda c: TOK), p
        x = METHODS.get((h, segs[-1]))
        if x is not None:
            return 'std', x, p
        if segs[-1].startswith('push_') and segs[-2] == '__private':
            return 'push', segs[-1], p
        if segs[-1] == '__into_span':
            return 'std', get_span, p
        if segs[-1] == 'span':
            return 'std', span_, p
        x = FREE.get('::'.join(segs[-2:]))
        if x is not None:
            return 'std', x, p
    x = FREE.get(segs[-1])
    if x is not None:
        return 'std', x, p
    if sx.defs.adts.get(segs[-1]) and sx.defs.adts[segs[-1]][0][0] is None:
        return 'ctor', (segs[-1], None), p
    return 'unknown', None, p
