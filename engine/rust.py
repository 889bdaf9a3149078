"""A symbolic machine for MIR: executes the real functions on the values of
sx.py, calls to functions under contract being replaced by their contracts,
calls to the libraries by the models in `builtins.py`.

Loops are never unrolled: a loop over an iterator is executed once, for a
generic element (`drive`); a loop over the input is put in bisimulation with
the loop of the contract (`parse_loop`)."""
import os
import re

import mir
import sx
from sx import (Adt, ANY, Clo, Const, ERR, Fn, It, JN, K, NeedFirst, O, Opq, PB, POS, Prune, Ref, Seq, SPAN, FM, TOK, Tup,
                U, UNINIT, UNIT, Unsupported, Violated, W, norm_ty, split_gen)


class Abort(Exception):
    """a reported error that ends the expansion"""


class Disc:
    def __init__(self, v):
        self.v = v


class Len:
    """the length of a sequence"""
    def __init__(self, seq):
        self.seq = seq


class GRef:
    """`map.entry(key).or_default()`"""
    def __init__(self, ref, key):
        self.ref, self.key = ref, key


GENERIC_RE = {}


def subst(s, env):
    for k, v in env.items():
        if k in s:
            r = GENERIC_RE.get(k)
            if r is None:
                r = GENERIC_RE[k] = re.compile(r'(?<![\w:])%s(?![\w])' % re.escape(k))
            s = r.sub(lambda m: v, s)
    return s


# ------------------------------------------------------------------ program --

class Program:
    """the functions and the data types of the code under verification"""

    def __init__(self, mir_text, root):
        self.funcs, self.errors = mir.parse_mir(mir_text)
        self.root = root
        self.src = {}
        self.impls = {}         # (type, trait or None, method) -> Func
        self.closures = {}      # closure type -> Func
        self.generics = {}      # function name -> [generic parameters]
        self.derived = set()
        self.info = {}
        for f in self.funcs.values():
            self.index(f)
        self.read_types()

    def lines(self, path):
        p = os.path.join(self.root, path) if not path.startswith('/') else path
        if p not in self.src:
            try:
                self.src[p] = open(p).read().split('\n')
            except OSError:
                self.src[p] = []
        return self.src[p]

    def span_text(self, path, l1, c1, l2, c2):
        ls = self.lines(path)[l1 - 1:l2]
        if not ls:
            return ''
        if len(ls) == 1:
            return ls[0][c1 - 1:c2 - 1]
        return '\n'.join([ls[0][c1 - 1:]] + ls[1:-1] + [ls[-1][:c2 - 1]])

    def index(self, f):
        m = re.match(r'^(.*?)<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>::(.*)$', f.name)
        if m:
            text = self.span_text(m.group(2), *map(int, m.group(3, 4, 5, 6)))
            meth = m.group(7)
            t = re.sub(r'\s+', ' ', text.strip())
            mm = re.match(r'^(?:unsafe )?impl\b(.*)$', t)
            if mm:
                h = mm.group(1).strip()
                gens = []
                if h.startswith('<'):
                    j = mir._close('(' + h[1:].replace('>', '>', 1)) if False else close_angle(h)
                    gens = gen_names(h[1:j])
                    h = h[j + 1:].strip()
                h = re.split(r' where ', h)[0].strip().rstrip('{').strip()
                parts = re.split(r' for ', h, maxsplit=1)
                if len(parts) == 2:
                    trait, ty = parts
                    f.key = (split_gen(norm_ty(ty))[0], mir.ty_last(trait), meth)
                else:
                    f.key = (split_gen(norm_ty(h))[0], None, meth)
                f.impl = gens
                if '::' not in meth:
                    self.impls[f.key] = f
            else:
                f.key = ('derive', t, meth)
                if f.params:
                    self.derived.add((split_gen(norm_ty(f.tys[f.params[0]]))[0], t))
                elif meth == 'default':
                    self.impls[(split_gen(norm_ty(f.ret))[0], 'Default', 'default')] = f
        else:
            f.key = (None, None, f.name)
        if f.params and '{closure#' in f.name.rsplit('::', 1)[-1]:
            t = mir.strip_ref(f.tys[f.params[0]])
            self.closures[t] = f

    def read_types(self):
        base = os.path.join(self.root, 'leptos-mview-core/src')
        for dp, _, fs in sorted(os.walk(base)):
            for fn in sorted(fs):
                if fn.endswith('.rs'):
                    self.read_source(open(os.path.join(dp, fn)).read())

    def read_source(self, text):
        text = strip_comments(text)
        for m in re.finditer(r'\bfn\s+(\w+)\s*<', text):
            j = close_angle(text[m.end() - 1:])
            self.generics.setdefault(m.group(1), gen_names(text[m.end():m.end() - 1 + j]))
        for m in re.finditer(r'\b(struct|enum)\s+(\w+)\s*(<[^>{(]*>)?\s*(where[^{(;]*)?([{(;])', text):
            kind, name, op = m.group(1), m.group(2), m.group(5)
            if op == ';':
                sx.defs.adts.setdefault(name, [(None, [])])
                continue
            j = close_bracket(text, m.end() - 1)
            body = text[m.end():j]
            if kind == 'struct':
                d = [(None, read_fields(body, op))]
            else:
                d = []
                for v in mir.split_top(body):
                    v = re.sub(r'#\[[^\]]*\]', '', v).strip()
                    mm = re.match(r'^(\w+)\s*([{(])?', v)
                    if mm.group(2):
                        o = mm.end() - 1
                        d.append((mm.group(1), read_fields(v[o + 1:close_bracket(v, o)], mm.group(2))))
                    else:
                        d.append((mm.group(1), []))
            sx.defs.adts.setdefault(name, d)

    def cfg(self, f):
        """(successors, innermost loop header per block, loops: header -> blocks, live-in sets)"""
        r = self.info.get(f.name)
        if r is None:
            r = self.info[f.name] = analyse(f)
        return r


def close_angle(s):
    d = 0
    for i, c in enumerate(s):
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] not in '-=':
            d -= 1
            if d == 0:
                return i
    return len(s) - 1


def close_bracket(s, i):
    d = 0
    while i < len(s):
        j = mir.skip_lit(s, i) if s[i] == '"' else i
        if j > i:
            i = j
            continue
        if s[i] in '([{':
            d += 1
        elif s[i] in ')]}':
            d -= 1
            if d == 0:
                return i
        i += 1
    return len(s)


def gen_names(s):
    out = []
    for g in mir.split_top(s):
        g = g.strip()
        if g.startswith("'"):
            continue
        out.append(re.sub(r'^const ', '', g).split(':')[0].strip())
    return out


def read_fields(body, op):
    out = []
    for n, p in enumerate(mir.split_top(body)):
        p = re.sub(r'#\[[^\]]*\]', '', p).strip()
        p = re.sub(r'^pub(\([^)]*\))?\s+', '', p)
        if op == '{':
            k, t = p.split(':', 1)
            out.append((k.strip(), norm_ty(t)))
        else:
            out.append(('_%d' % n, norm_ty(p)))
    return out


def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = len(s) if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i)
            i = len(s) if j < 0 else j + 2
        else:
            j = mir.skip_lit(s, i)
            if j > i:
                out.append(s[i:j])
                i = j
            else:
                out.append(s[i])
                i += 1
    return ''.join(out)


def succs(b):
    t = b[-1]
    if t[0] == 'goto':
        return [t[1]]
    if t[0] == 'switch':
        return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
    if t[0] == 'assert':
        return [t[3]]
    if t[0] == 'call':
        return [t[4]] if t[4] is not None else []
    return []


def place_uses(p, out):
    out.add(p[0])
    for x in p[1]:
        if x[0] == 'idx':
            out.add(x[1])


def op_uses(o, out):
    if o[0] in ('mv', 'cp'):
        place_uses(o[1], out)


def rv_uses(r, out):
    k = r[0]
    if k in ('use', 'un'):
        op_uses(r[-1], out)
    elif k == 'ref':
        place_uses(r[2], out)
    elif k in ('disc', 'len'):
        place_uses(r[1], out)
    elif k == 'bin':
        for o in r[2]:
            op_uses(o, out)
    elif k in ('cast', 'repeat'):
        op_uses(r[1], out)
    elif k in ('array', 'tuple'):
        for o in r[1]:
            op_uses(o, out)
    elif k in ('closure', 'adt'):
        for _, o in r[2]:
            op_uses(o, out)


def stmt_flow(st):
    """(uses, def)"""
    u = set()
    d = None
    if st[0] == 'assign':
        rv_uses(st[2], u)
        if st[1][1]:
            place_uses(st[1], u)
        else:
            d = st[1][0]
    elif st[0] == 'call':
        for o in st[3]:
            op_uses(o, u)
        if st[1][1]:
            place_uses(st[1], u)
        else:
            d = st[1][0]
    elif st[0] in ('switch', 'assert'):
        op_uses(st[1], u)
    elif st[0] == 'return':
        u.add(0)
    return u, d


NEXT = re.compile(r' as (?:std|core)::iter::(?:Iterator|DoubleEndedIterator)>::next(?:_back)?$')


def is_next(st):
    return st[0] == 'call' and bool(NEXT.search(st[2]))


def analyse(f):
    blocks = f.blocks
    succ = {b: [s for s in succs(x) if s in blocks] for b, x in blocks.items()}
    order, seen = [], set()

    def dfs(b):
        st = [(b, iter(succ[b]))]
        seen.add(b)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(n)
                st.pop()
    dfs(0)
    rpo = order[::-1]
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            d = set.intersection(*[dom[p] for p in pred[b]]) | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    n = st.pop()
                    if n not in body:
                        body.add(n)
                        st += pred[n]
    inner = {}
    for b in rpo:
        hs = [h for h, body in loops.items() if b in body]
        inner[b] = min(hs, key=lambda h: len(loops[h])) if hs else None
    kind = {h: 'parse' for h in loops}
    for b in rpo:
        if is_next(blocks[b][-1]) and inner[b] is not None:
            kind[inner[b]] = 'iter'
    live = {b: set() for b in rpo}
    ch = True
    while ch:
        ch = False
        for b in order:
            l = set()
            for s in succ[b]:
                l |= live[s]
            for st in reversed(blocks[b]):
                u, d = stmt_flow(st)
                if d is not None:
                    l.discard(d)
                l |= u
            if l != live[b]:
                live[b] = l
                ch = True
    return {'succ': succ, 'loops': loops, 'inner': inner, 'kind': kind, 'live': live}


# ------------------------------------------------------------------ machine --

class Frame:
    __slots__ = ('f', 'fid', 'env', 'exits')

    def __init__(self, f, fid, env):
        self.f, self.fid, self.env = f, fid, env
        self.exits = {}


INTS = frozenset('usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128'.split())


def env_of(fr):
    return fr.env


def is_env(v):
    """a value that comes from outside the program (environment, clock, state of earlier runs)"""
    if isinstance(v, Opq):
        return env_term(v.term)
    return isinstance(v, Seq) and any(isinstance(p, O) and env_term(p.term) for p in v.parts)


def env_term(t):
    while isinstance(t, tuple) and t:
        if t[0] == 'env':
            return True
        if t[0] != 'fld':
            return False
        t = t[1]
    return False


FLIP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}


class Machine:
    def __init__(self, prog, cut, host):
        self.prog, self.cut, self.host = prog, cut, host
        self.heap = {}
        self.nf = 0
        self.nparse = 0
        self.depth = 0
        self.trace = []
        self.called = set()
        self.stack = []

    def where(self):
        return self.stack[-1] if self.stack else '?'

    # -- heap
    def alloc(self, v):
        self.nf += 1
        c = (self.nf, 'h')
        self.heap[c] = v
        return c

    def load(self, cell, path):
        v = self.heap.get(cell, UNINIT)
        for var, name in path:
            v = self.get_field(v, var, name)
        return v

    def store(self, cell, path, val):
        if not path:
            self.heap[cell] = val
            return
        self.heap[cell] = self.update(self.heap.get(cell, UNINIT), path, val)

    def update(self, v, path, val):
        if not path:
            return val
        (var, name), rest = path[0], path[1:]
        if isinstance(v, Tup):
            xs = list(v.xs)
            xs[int(name)] = self.update(xs[int(name)], rest, val)
            return Tup(xs)
        if isinstance(v, Adt):
            f = dict(v.f)
            f[name] = self.update(f.get(name, UNINIT), rest, val)
            return Adt(v.ty, v.var, f)
        if isinstance(v, Clo):
            i = int(name)
            caps = list(v.caps)
            caps[i] = (caps[i][0], self.update(caps[i][1], rest, val))
            return Clo(v.ty, caps, v.env)
        if isinstance(v, Opq):
            names = sx.field_names(v.ty, var)
            if split_gen(v.ty)[0] == 'Option':
                names = ['_0']
            if names is None:
                raise Unsupported('write to a field of %s' % v.ty)
            f = {n: sx.field(v, var, n) for n in names}
            f[name] = self.update(f[name], rest, val)
            return Adt(v.ty, var, f)
        if v is TOK or v is SPAN:
            return v
        raise Unsupported('write into %r' % (v,))

    def get_field(self, v, var, name):
        if isinstance(v, Ref):
            v = self.load(v.cell, v.path)
        if isinstance(v, Tup):
            return v.xs[int(name)]
        if isinstance(v, Clo):
            return v.caps[int(name)][1]
        if v is TOK or v is SPAN or v is ERR:
            return SPAN
        if v is ANY:
            return ANY
        return sx.field(v, var, name)

    def fname(self, v, var, i):
        if isinstance(v, (Tup, Clo)) or v is ANY or isinstance(v, Const):
            return str(i)
        ty = v.ty
        if split_gen(ty)[0] in ('Option', 'Result', 'ControlFlow'):
            return '_%d' % i
        names = sx.field_names(ty, var)
        if names is not None:
            if i >= len(names):
                raise Unsupported('field %d of %s' % (i, ty))
            return names[i]
        return '_%d' % i

    # -- places
    def resolve(self, fr, place):
        cell, path = (fr.fid, place[0]), ()
        var = None
        for p in place[1]:
            if p[0] == '*':
                v = self.load(cell, path)
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
                elif v is UNINIT:
                    raise Unsupported('read of an uninitialised place in %s' % fr.f.name)
                var = None
            elif p[0] == 'as':
                var = p[1]
            elif p[0] == 'f':
                v = self.load(cell, path)
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
                    v = self.load(cell, path)
                if v is UNINIT:
                    raise Unsupported('field of an uninitialised place')
                path = path + ((var, self.fname(v, var, p[1])),)
                var = None
            elif p[0] in ('idx', 'cidx'):
                i = p[1] if p[0] == 'cidx' else self.load((fr.fid, p[1]), ())
                v = self.load(cell, path)
                return None, None, self.index(v, i)
            else:
                raise Unsupported('projection %r' % (p,))
        return cell, path, None

    def index(self, v, i):
        v = self.val(v)
        if i == 0:
            x = self.host.first(self, v)
            if x is None:
                raise Violated('panic', 'index out of bounds', ('C02',))
            return x
        if isinstance(i, int) and isinstance(v, Seq):
            ps = sx.flat(v.parts)
            if i < 0:
                ps = ps[::-1]
                i = -i - 1
            if len(ps) > i and all(isinstance(p, U) for p in ps[:i + 1]):
                return ps[i].v
        raise Unsupported('index %r' % (i,))

    def read(self, fr, place):
        cell, path, v = self.resolve(fr, place)
        if cell is None:
            return v
        v = self.load(cell, path)
        if v is UNINIT:
            raise Unsupported('read of an uninitialised place _%d in %s' % (place[0], fr.f.name))
        return v

    def write(self, fr, place, val):
        cell, path, v = self.resolve(fr, place)
        if cell is None:
            raise Unsupported('write to an element')
        self.store(cell, path, val)

    def val(self, v):
        """the value behind references"""
        while isinstance(v, Ref):
            v = self.load(v.cell, v.path)
        return v

    # -- operands
    def operand(self, fr, o):
        if o[0] in ('mv', 'cp'):
            return self.read(fr, o[1])
        return self.const(fr, o[1])

    def const(self, fr, k):
        if k[0] == 'str':
            return Seq('str', [K(k[1])] if k[1] else [])
        if k[0] in ('int', 'chr', 'bool'):
            return k[1]
        if k[0] == 'unit':
            return UNIT
        t = subst(k[1], fr.env)
        m = re.search(r'::(promoted\[\d+\])$', t)
        if m:
            f = self.prog.funcs.get(fr.f.name + '::' + m.group(1))
            if f is None:
                raise Unsupported('promoted ' + t)
            return self.run(f, [], fr.env)
        if t in ('true', 'false'):
            return t == 'true'
        m = re.fullmatch(r'\{?(-?\d+)(_\w+)?\}?', t)
        if m:
            return int(m.group(1))
        f = self.prog.funcs.get(t)
        if f is not None and f.is_const and 'LocalKey<' in f.ret:
            return Opq(re.search(r'LocalKey<(.*)>', f.ret).group(1).replace('std::cell::', ''), W().fresh('env'))
        if f is not None and f.is_const:
            return self.run(f, [], fr.env)
        if f is None and '<impl' not in t:
            c = self.host.assoc_const(self, t)
            if c is not None:
                return self.run(c, [], fr.env)
        if t.startswith('{alloc') or t.startswith('alloc'):
            # the state of a static: whatever earlier runs left
            m = re.match(r'\{?alloc\d+: (&(?:mut )?)?(?:\*(?:const|mut) )?(.*?)\}?$', t)
            if m and re.search(r'Atomic\w+$|Cell<|OnceLock<|static mut', m.group(2)):
                return Opq(m.group(2).strip(), W().fresh('env'))
            raise Unsupported('static data ' + t)
        return Fn(t, fr.env)

    # -- rvalues
    def rvalue(self, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(fr, r[1])
        if k == 'ref':
            cell, path, v = self.resolve(fr, r[2])
            if cell is None:
                return v
            v = self.load(cell, path)
            if isinstance(v, PB):
                return v
            if r[1]:
                return v if isinstance(v, Ref) and r[2][1] and r[2][1][-1][0] == '*' else Ref(cell, path)
            return v
        if k == 'disc':
            return Disc(self.val(self.read(fr, r[1])))
        if k == 'adt':
            return self.aggregate(fr, r[1], [(n, self.operand(fr, o)) for n, o in r[2]])
        if k == 'tuple':
            return Tup([self.operand(fr, o) for o in r[1]]) if r[1] else UNIT
        if k == 'array':
            return Seq('vec', [U(self.operand(fr, o)) for o in r[1]])
        if k == 'closure':
            return Clo(r[1], [(n, self.operand(fr, o)) for n, o in r[2]], fr.env)
        if k == 'cast':
            return self.operand(fr, r[1])
        if k == 'bin':
            a, b = [self.val(self.operand(fr, o)) for o in r[2]]
            return self.binop(r[1], a, b)
        if k == 'un':
            v = self.val(self.operand(fr, r[2]))
            if r[1] == 'Not' and isinstance(v, bool):
                return not v
            if r[1] == 'PtrMetadata':
                return Len(v)
            raise Unsupported('%s of %r' % (r[1], v))
        if k == 'len':
            return Len(self.val(self.read(fr, r[1])))
        raise Unsupported('rvalue %r' % (r,))

    def binop(self, op, a, b):
        if op.endswith('WithOverflow'):
            if is_env(a) or is_env(b):
                return Tup([Opq('usize', W().fresh('env')), False])
            if a is POS or b is POS:
                if op.startswith('Add'):
                    return Tup([POS, False])
                raise Unsupported('arithmetic')
            if isinstance(a, int) and isinstance(b, int):
                v = a + b if op[0] == 'A' else a - b if op[0] == 'S' else a * b
                if v < 0:
                    return Tup([v, True])
                return Tup([v, False])
            raise Unsupported('arithmetic on %r' % (a,))
        if op in ('Add', 'AddUnchecked') and (a is POS or b is POS):
            return POS
        if isinstance(a, Disc) or isinstance(b, Disc):
            if not isinstance(a, Disc):
                a, b = b, a
            i = sx.variants(a.v.ty).index(sx.variant(a.v)) if not isinstance(b, Disc) else None
            if i is None:
                r = sx.variant(a.v) == sx.variant(b.v)
            else:
                r = i == b
            if op in ('Eq', 'Ne'):
                return r == (op == 'Eq')
            raise Unsupported('discriminant order')
        if isinstance(a, Len) or isinstance(b, Len):
            if not isinstance(a, Len):
                a, b = b, a
                op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
            return self.len_cmp(op, a.seq, b)
        if a is POS or b is POS:
            if a is POS and b is POS:
                raise Unsupported('comparison of counters')
            if b is POS:
                a, b = b, a
                op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
            if b == 0 and not isinstance(b, bool):
                return {'Eq': False, 'Ne': True, 'Gt': True, 'Lt': False, 'Ge': True, 'Le': False}[op]
            if b == 1 and op in ('Ge', 'Lt'):
                return op == 'Ge'
            raise Unsupported('comparison of a counter')
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, int) and isinstance(b, int):
            return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b,
                    'BitAnd': None if isinstance(a, str) else a & b, 'BitOr': None if isinstance(a, str) else a | b,
                    'BitXor': None if isinstance(a, str) else a ^ b,
                    'Add': None if isinstance(a, str) else a + b, 'Sub': None if isinstance(a, str) else a - b}[op]
        if is_env(a) or is_env(b):
            if op in FLIP:
                return W().decide(('envb', W().fresh('env')))
            o = a if isinstance(a, Opq) else b
            return Opq(o.ty, W().fresh('env'))
        if isinstance(a, Opq) and a.ty in ('u8', 'char') and a.term[0] != 'env' and isinstance(b, int) and not isinstance(b, bool) and b < 128:
            b = chr(b)          # a byte of a text, or its character: the same below 128
        elif isinstance(b, Opq) and b.ty in ('u8', 'char') and b.term[0] != 'env' and isinstance(a, int) and not isinstance(a, bool) and a < 128:
            a = chr(a)
        if isinstance(a, Opq) and isinstance(b, Opq) and a.ty == b.ty == 'char' and op in ('Eq', 'Ne'):
            x, y = sorted((a.term, b.term), key=lambda t: t[0] == 'lower')
            if y == ('lower', x):
                # only an upper case letter has another lower case one
                return self.host.upper(a if a.term == x else b) == (op == 'Ne')
            if x == y:
                return op == 'Eq'
        if isinstance(a, Opq) and a.ty in ('char', 'u8') and isinstance(b, str):
            if op in ('Eq', 'Ne'):
                return self.char_is(a, b) == (op == 'Eq')
            if op in ('Ge', 'Lt'):
                return W().decide(('cge', a.term, b)) == (op == 'Ge')
            if op in ('Gt', 'Le'):
                return W().decide(('cge', a.term, chr(ord(b) + 1))) == (op == 'Gt')
        if isinstance(b, Opq) and b.ty in ('char', 'u8') and isinstance(a, str) and op in FLIP:
            return self.binop(FLIP[op], b, a)
        if isinstance(b, Opq) and b.ty in ('char', 'u8') and isinstance(a, str) and op in ('Eq', 'Ne'):
            return self.char_is(b, a) == (op == 'Eq')
        raise Unsupported('%s of %r and %r' % (op, a, b))

    def at_least(self, seq, n):
        """has the sequence at least n elements?"""
        ps = sx.flat(seq.parts)
        n -= sum(isinstance(p, U) for p in ps)
        rest = [p for p in ps if not isinstance(p, U)]
        if n <= 0:
            return True
        if not rest:
            return False
        if len(rest) > 1 or not isinstance(rest[0], O) or not rest[0].ety:
            if n == 1 and len(rest) == len(ps):
                return sx.seq_nonempty(seq)
            raise Unsupported('length of a computed sequence')
        p = rest[0]
        one = Seq(seq.kind, [p])
        if not sx.seq_nonempty(one):
            return False
        if n == 1:
            return True
        if sx.seq_len1(one):
            return False
        return n == 2 or W().decide(('lenge', p.term, n))

    def char_is(self, c, s):
        t = c.term
        if t[0] == 'pch' and t[1][0] == 'fld' and t[1][1][0] == 'tt' and s in sx.TOK_BY_NAME.values():
            return W().decide(('is', s, t[1][1][1]))
        return W().decide(('chr', c.term, s))

    def len_cmp(self, op, seq, n):
        if isinstance(n, Len):
            raise Unsupported('comparison of lengths')
        ps = sx.flat(seq.parts)
        if all(isinstance(p, U) for p in ps) and isinstance(n, int):
            return self.binop(op, len(ps), n)
        if seq.kind == 'str':
            if n == 0:
                e = not sx.seq_nonempty(seq)
                return {'Eq': e, 'Le': e, 'Ne': not e, 'Gt': not e, 'Ge': True, 'Lt': False}[op]
            if n == 1 and op in ('Ge', 'Lt'):
                return sx.seq_nonempty(seq) == (op == 'Ge')
            if isinstance(n, int) and n > 0:
                def ge(k):
                    return sx.decide_str('blen', seq, k)
                return {'Ge': lambda: ge(n), 'Lt': lambda: not ge(n), 'Gt': lambda: ge(n + 1), 'Le': lambda: not ge(n + 1),
                        'Eq': lambda: ge(n) and not ge(n + 1), 'Ne': lambda: not (ge(n) and not ge(n + 1))}[op]()
            raise Unsupported('length of a text')
        if n == 0:
            e = not sx.seq_nonempty(seq)
            return {'Eq': e, 'Le': e, 'Ne': not e, 'Gt': not e, 'Ge': True, 'Lt': False}[op]
        if n == 1:
            if op in ('Eq', 'Ne'):
                return sx.seq_len1(seq) == (op == 'Eq')
            if op in ('Ge', 'Lt'):
                return sx.seq_nonempty(seq) == (op == 'Ge')
            gt = sx.seq_nonempty(seq) and not sx.seq_len1(seq)
            return gt == (op == 'Gt')
        if n == 2 and op in ('Ge', 'Lt'):
            return self.len_cmp('Gt' if op == 'Ge' else 'Le', seq, 1)
        if isinstance(n, int) and n > 1:
            def ge(k):
                return self.at_least(seq, k)
            return {'Ge': lambda: ge(n), 'Lt': lambda: not ge(n), 'Gt': lambda: ge(n + 1), 'Le': lambda: not ge(n + 1),
                    'Eq': lambda: ge(n) and not ge(n + 1), 'Ne': lambda: not (ge(n) and not ge(n + 1))}[op]()
        raise Unsupported('length compared with %r' % (n,))

    def aggregate(self, fr, path, fields):
        segs, _ = mir.segs_of(subst(path, fr.env))
        last = segs[-1]
        prev = segs[-2] if len(segs) > 1 else None
        if last in ('RepInterp', 'Wrapping'):
            return fields[0][1]
        if last in ('HasIterator', 'PhantomData', 'ThereIsNoIteratorInRepetition'):
            return UNIT
        if prev and (prev in sx.EXTERN_ENUMS and last in sx.EXTERN_ENUMS[prev] or sx.variants(prev) and last in sx.variants(prev)):
            ty, var = prev, last
        else:
            ty, var = last, None
            if ty in sx.TOKENS and ty not in sx.defs.adts:
                return TOK
        f = {}
        names = sx.field_names(ty, var)
        for i, (n, v) in enumerate(fields):
            if n is None:
                n = names[i] if names and i < len(names) else '_%d' % i
            f[n] = v
        a = Adt(ty, var, f)
        self.host.invariant(self, a)
        return a

    # -- execution
    def run(self, f, args, env):
        """the result of calling a function of the crate"""
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion without a contract: ' + f.name)
        self.nf += 1
        fr = Frame(f, self.nf, env)
        self.called.add(f.name)
        for p, a in zip(f.params, args):
            self.heap[(fr.fid, p)] = a
        self.stack.append(f.name)
        try:
            return self.exec(fr, 0)
        finally:
            self.stack.pop()
            self.depth -= 1

    def exec(self, fr, bb, stop=None, region=None):
        """runs from a block to the return of the function (the result), or to
        `stop`, a block (None)"""
        f = fr.f
        info = self.prog.cfg(f)
        first = True
        n = 0
        while True:
            if region is not None and bb not in region:
                raise LoopExit(bb)
            if stop is not None and stop == ('header', bb) and not first:
                return None
            if info['kind'].get(bb) == 'parse' and not (first and stop == ('header', bb)):
                self.parse_loop(fr, bb, info)
            first = False
            n += 1
            if n > 20000:
                raise Unsupported('too many steps')
            for st in f.blocks[bb]:
                k = st[0]
                if k == 'assign':
                    if st[2][0] != 'nop':
                        self.write(fr, st[1], self.rvalue(fr, st[2]))
                elif k == 'goto':
                    bb = st[1]
                elif k == 'call':
                    if is_next(st) and info['inner'][bb] is not None:
                        if stop == ('next', bb):
                            return None
                        bb = self.next_in_loop(fr, bb, st, info) or st[4]
                        continue
                    args = [self.operand(fr, o) for o in st[3]]
                    self.dest_ty = None if st[1][1] else subst(f.tys.get(st[1][0]) or '', env_of(fr))
                    v = self.call(fr, st[2], args)
                    if st[4] is None:
                        raise Unsupported('a call that should not return: ' + st[2])
                    self.write(fr, st[1], v)
                    bb = st[4]
                elif k == 'switch':
                    bb = self.switch(fr, st)
                elif k == 'assert':
                    v = self.operand(fr, st[1])
                    if v is not True and v is not False:
                        raise Unsupported('assertion on %r' % (v,))
                    if v != st[2]:
                        raise Violated('panic', 'assertion fails: ' + st[4][:80], ('C02',))
                    bb = st[3]
                elif k == 'unreachable':
                    raise Prune()
                elif k == 'return':
                    return self.heap.get((fr.fid, 0), UNIT)
                else:
                    raise Unsupported(k)

    def switch(self, fr, st):
        v = self.val(self.operand(fr, st[1]))
        targets, other = st[2], st[3]
        if isinstance(v, Disc):
            vs = sx.variants(v.v.ty) if isinstance(v.v, (Adt, Opq)) else None
            if v.v is ANY:
                raise Unsupported('match on an unspecified value')
            if vs is None:
                raise Unsupported('match on %r' % (v.v,))
            if isinstance(v.v, Opq):
                for i, t in targets:
                    if i < len(vs) and sx.is_variant(v.v, vs[i]):
                        return t
                if other is None:
                    raise Prune()
                return other
            i = vs.index(v.v.var)
        elif isinstance(v, bool):
            i = int(v)
        elif isinstance(v, int):
            i = v
        elif isinstance(v, str):
            i = ord(v)
        elif v is POS:
            for i, t in targets:
                if i != 0:
                    raise Unsupported('match on a counter')
            return other
        elif isinstance(v, Opq) and (v.ty == 'char' or v.ty == 'u8' and v.term[0] != 'env' and all(i < 128 for i, _ in targets)):
            for i, t in targets:
                if self.char_is(v, chr(i)):
                    return t
            return other
        elif isinstance(v, Opq) and v.ty in INTS and is_env(v):
            for i, t in targets:
                if W().decide(('enveq', v.term, i)):
                    return t
            return other
        elif isinstance(v, Len):
            for i, t in targets:
                if self.len_cmp('Eq', v.seq, i):
                    return t
            return other
        else:
            raise Unsupported('match on %r' % (v,))
        for k, t in targets:
            if k == i:
                return t
        return other

    def call(self, fr, callee, args):
        return self.host.call(self, subst(callee, fr.env), args, fr.env)

    def apply(self, fn, args):
        """calls a closure or function value"""
        fn0 = fn
        fn = self.val(fn)
        if isinstance(fn, Clo):
            f = self.prog.closures.get(fn.ty)
            if f is None:
                raise Unsupported('closure ' + fn.ty)
            t = f.tys[f.params[0]]
            selfv = fn0
            if isinstance(fn0, Clo) and t.startswith('&mut'):
                selfv = Ref(self.alloc(fn), ())
            return self.run(f, [selfv] + list(args), fn.env)
        if isinstance(fn, Fn):
            return self.host.call(self, subst(fn.path, fn.env), list(args), fn.env)
        raise Unsupported('call of %r' % (fn,))

    # -- iterators
    def stage(self, stages, v, i=0):
        """what the stages make of an element: a list of 0 or 1 values"""
        for s in stages:
            if s[0] == 'map':
                v = self.apply(s[1], [v])
            elif s[0] == 'filter':
                if not self.apply(s[1], [v]):
                    return []
            elif s[0] == 'py':
                r = s[1](self, v)
                if not r:
                    return []
                v = r[0]
            elif s[0] == 'filter_map':
                r = self.val(self.apply(s[1], [v]))
                if sx.variant(r) == 'None':
                    return []
                v = self.get_field(r, 'Some', '_0')
            else:
                raise Unsupported('iterator stage ' + s[0])
        return [v]

    def part_fn(self, p):
        """(S, element type, elements for x) of a symbolic part"""
        if isinstance(p, O):
            if not p.ety:
                if p.term[0] in ('lacc', 'rest'):
                    raise Unsupported('iteration over a computed sequence')
                if p.unf:
                    raise Unsupported('iteration over the result of a contract')
                raise Unsupported('iteration over %s' % (sx.show(p.term),))
            return p.term, p.ety, (lambda x: [x]), None
        if isinstance(p, FM):
            def els(fn):
                def g(x):
                    ps = sx.flat(fn(x).parts)
                    if not all(isinstance(q, U) for q in ps):
                        raise Unsupported('nested loop')
                    return [q.v for q in ps]
                return g
            return p.S, p.ety, els(p.fn), p.fn0 and els(p.fn0)
        raise Unsupported('iteration over %r' % (p,))

    def it_parts(self, it):
        return sx.flat(it.parts)

    def it_some(self, it):
        """does the iterator have an element?  an arbitrary one, or None"""
        it = self.val(it)
        for p in self.it_parts(it):
            if isinstance(p, U):
                r = self.quiet(lambda: self.stage(it.stages, p.v))
                if r:
                    return r[0]
                continue
            S, ety, els, _ = self.part_fn(p)

            def has(x, els=els):
                return self.quiet(lambda: any(self.stage(it.stages, e) for e in els(x)))
            if not sx.decide_any(S, ety, has, 'nonempty' if isinstance(p, O) and not it.stages else None):
                continue
            w = W()
            if sx.known_len1(S) and S[0] != 'groups':
                x = sx.first_of(S, ety)
            else:
                x = sx.bound(S, ety, w, ('some', w.nloop))
                w.nloop += 1
            for e in els(x):
                r = self.quiet(lambda: self.stage(it.stages, e))
                if r:
                    return r[0]
            raise Prune()
        return None

    def it_first(self, it):
        """the first element and the rest, or None"""
        it = self.val(it)
        if any(s[0] == 'py' for s in it.stages):
            raise Unsupported('the rest of this iterator')
        parts = self.it_parts(it)
        for k, p in enumerate(parts):
            after = tuple(parts[k + 1:])
            if isinstance(p, U):
                r = self.stage(it.stages, p.v)
                if r:
                    return r[0], It(after, it.stages)
                continue
            S, ety, els, els0 = self.part_fn(p)
            if els0 is not None or ety in ('char', 'group', 'u8', 'str'):
                raise Unsupported('the rest of this iterator')

            def has(x, els=els):
                def f():
                    es = els(x)
                    if len(es) > 1:
                        raise Unsupported('the rest of a nested iterator')
                    return any(self.stage(it.stages, e) for e in es)
                return self.quiet(f)
            if not sx.decide_any(S, ety, has):
                continue
            if sx.known_len1(S):
                x = sx.first_of(S, ety)
                rest = after
            else:
                w = W()
                x = sx.bound(S, ety, w, ('some', w.nloop))
                w.nloop += 1
                rest = (sx.Rest(p, S, ety, x, has),) + after
            for e in els(x):
                r = self.stage(it.stages, e)
                if r:
                    return r[0], It(rest, it.stages)
            raise Prune()
        return None

    def quiet(self, run):
        """runs without effects on the heap or the reports"""
        heap, w = self.heap, W()
        self.heap = dict(heap)
        keep, w.E = w.E, []
        try:
            r = run()
            if w.E:
                raise Unsupported('a report inside an iterator that may not be consumed')
            return r
        finally:
            self.heap = heap
            w.E = keep

    def next_in_loop(self, fr, bb, st, info):
        """`next` in a loop: executes the loop for all the symbolic elements at
        the head of the iterator, then returns the next concrete one or None"""
        ref = self.operand(fr, st[3][0])
        dest, target = st[1], st[4]
        region = info['loops'][info['inner'][bb]]
        while True:
            it = self.val(ref)
            if not isinstance(it, It):
                raise Unsupported('next of %r' % (it,))
            parts = self.it_parts(it)
            if not parts:
                self.write(fr, dest, Adt('Option', 'None'))
                return
            p = parts[0]
            if it.stages and it.stages[0] == ('poison',):
                raise Unsupported('iterator used after next')
            self.set_it(ref, It(parts[1:], it.stages))
            if isinstance(p, U):
                r = self.stage(it.stages, p.v)
                if r:
                    self.write(fr, dest, Adt('Option', 'Some', {'_0': r[0]}))
                    return
                continue
            live = self.live_cells(fr, info['live'][target] - {dest[0]})

            def body(v, it=it):
                for x in self.stage(it.stages, v):
                    self.write(fr, dest, Adt('Option', 'Some', {'_0': x}))
                    self.exec(fr, target, ('next', bb), region)
            try:
                self.drive(p, body, live, lambda c: c[0] == fr.fid)
            except LeftEarly:
                out = self.search(fr, p, body, live)
                if out is not None:
                    self.set_it(ref, It(parts, (('poison',),) + it.stages))
                    return out

    def search(self, fr, p, body, live):
        """a loop that is left at the first element that ...: the block it is
        left to, or None if there is no such element"""
        S, ety, els, els0 = self.part_fn(p)
        w = W()
        if els0 is not None:
            raise Unsupported('search of a separated list')

        def leaves(x):
            H0, E0 = self.heap, W().E
            self.heap, W().E = dict(H0), []
            try:
                for v in els(x):
                    body(v)
                ch = {}
                for c in H0:
                    if (c[0] != fr.fid or c in live) and self.heap.get(c) is not H0[c]:
                        diff(H0[c], self.heap.get(c, UNINIT), (c, ()), ch)
                if ch or W().E:
                    raise Unsupported('a loop with effects that is left early')
                return False
            except LoopExit:
                return True
            finally:
                self.heap, W().E = H0, E0
        if not sx.decide_any(S, ety, leaves):
            return None
        if sx.known_len1(S) and S[0] != 'groups':
            x = sx.first_of(S, ety)
        else:
            x = sx.bound(S, ety, w, ('some', w.nloop))
            w.nloop += 1
        try:
            for v in els(x):
                body(v)
        except LoopExit as e:
            return e.args[0]
        raise Prune()

    def set_it(self, ref, it):
        if isinstance(ref, Ref):
            v = self.load(ref.cell, ref.path)
            if isinstance(v, Ref):
                return self.set_it(v, it)
            self.store(ref.cell, ref.path, it)
        else:
            raise Unsupported('next of a value')

    def live_cells(self, fr, locs):
        """the cells of the frame that the rest of the function can read"""
        out, todo = set(), [(fr.fid, l) for l in locs]
        while todo:
            c = todo.pop()
            if c in out or c not in self.heap:
                continue
            out.add(c)
            refs_in(self.heap[c], todo)
        return out

    def drive(self, part, body, live, mine):
        """executes body(v) for every element of a symbolic part: each sequence
        it appends to becomes a loop over the part"""
        S, ety, els, els0 = self.part_fn(part)
        if els0 is not None:
            raise Unsupported('loop over a separated list')
        H0 = self.heap
        w = W()
        uid0 = w.uid

        def run(x, H):
            prev, self.heap = self.heap, dict(H)
            try:
                for v in els(x):
                    body(v)
            except Abort:
                pass
            except LoopExit:
                raise LeftEarly('a loop that is left early')
            finally:
                H1, self.heap = self.heap, prev
            return H1

        def is_live(c):
            return c in H0 and (not mine(c) or c in live)

        accs, modes = {}, {}
        fronts, backs = set(), set()

        def cut(leaf, v, n=1):
            """what a round added"""
            ps = v.parts
            return Seq(v.kind, (ps[:len(ps) - n] if leaf in fronts else ps[n:]))

        def start(mode=None, info=None):
            H = dict(H0)
            for leaf, t in accs.items():
                put(H, leaf, Seq(get(H, leaf).kind, [O(t)]))
            for leaf, v in (mode or {}).items():
                put(H, leaf, v)
            return H

        def explore_state(H, first):
            """the changes from a state, over all elements"""
            found = []

            def b(x):
                keep = dict(W().accinfo)
                if not first:
                    for t in accs.values():
                        if t in needs:
                            W().accinfo[t] = True
                H1 = run(x, H)
                ch = {}
                for c in H:
                    if is_live(c) and H1.get(c) is not H[c]:
                        diff(H[c], H1.get(c, UNINIT), (c, ()), ch)
                aborted = any(e[0] == 'T' for e in W().E)
                found.append((ch, aborted, len(W().E)))
                W().accinfo = keep
                return True
            sx.forall(S, ety, b)
            return found

        needs = set()
        peel = False
        for _ in range(40):
            # states to explore: the initial one, then what it leads to
            again = False
            trans = {}
            init = tuple(sorted(((l, closed(get(H0, l))) for l in modes), key=repr))
            todo, seen = [init], set()
            has_e = {}
            while todo and not again:
                m = todo.pop()
                if m in seen:
                    continue
                seen.add(m)
                if len(seen) > 12:
                    raise Unsupported('too many loop states')
                H = start({l: open_(v) for l, v in m})
                try:
                    res = explore_state(H, False)
                except NeedFirst:
                    if not accs or needs == set(accs.values()):
                        raise Unsupported('emptiness of a sequence under construction')
                    needs |= set(accs.values())
                    peel = True
                    again = True
                    break
                trans[m] = set()
                has_e[m] = any(n for _, _, n in res)
                for ch, aborted, _ in res:
                    for leaf, (a, b) in ch.items():
                        if isinstance(a, Seq) and isinstance(b, Seq):
                            if leaf not in accs:
                                if a.kind != b.kind:
                                    raise Unsupported('sequence changes kind')
                                accs[leaf] = w.fresh('acc')
                                again = True
                            elif tuple(b.parts[:1]) != tuple(a.parts[:1]):
                                if tuple(b.parts[-1:]) != tuple(a.parts[-1:]):
                                    raise Unsupported('a loop that rewrites a sequence')
                                fronts.add(leaf)
                            elif len(b.parts) > 1:
                                backs.add(leaf)
                        elif leaf not in modes:
                            modes[leaf] = True
                            again = True
                    if again:
                        break
                    m2 = dict(m)
                    for leaf, (a, b) in ch.items():
                        if leaf in modes:
                            m2[leaf] = closed(b)
                    m2 = tuple(sorted(m2.items(), key=repr))
                    trans[m].add(m2)
                    todo.append(m2)
            if not again:
                break
        else:
            raise Unsupported('loop effects')
        m0 = tuple(sorted(((l, closed(get(H0, l))) for l in modes), key=repr))
        HP = start()
        final = m0
        fn0_from = None
        rest = HP
        if peel:
            fn0_from = True
        seps = None

        def separators(Ha, Hb, m1):
            """the texts that the rounds put between the elements, if the state
            only says whether there was one before"""
            def row(x):
                n = len(els(x))
                a = run(x, Ha)
                b = run(x, Hb)
                W().E = []
                moved = all(closed(get(a, l)) == v for l, v in m1)
                if n > 1 or moved != (n == 1):
                    return None
                out = {}
                for l in accs:
                    A, B = sx.flat(cut(l, get(a, l)).parts), sx.flat(cut(l, get(b, l)).parts)
                    if get(H0, l).kind != 'str':
                        if not sx.eq_seq(Seq('tok', A), Seq('tok', B)):
                            return None
                        continue
                    if not n:
                        if A or B:
                            return None
                        out[l] = ANY
                        continue
                    head = A[0].s if A and isinstance(A[0], K) else ''
                    if not (B and isinstance(B[0], K) and B[0].s.endswith(head)):
                        return None
                    out[l] = B[0].s[:len(B[0].s) - len(head)]
                    if not sx.eq_seq(Seq('str', B), Seq('str', [K(out[l])] + A)):
                        return None
                return out
            rows = sx.forall(S, ety, row)
            if None in rows:
                return None
            out = {}
            for r in rows:
                for l, v in r.items():
                    if v is not ANY:
                        if out.setdefault(l, v) != v:
                            return None
            return out
        if modes:
            t0 = trans[m0]
            if t0 == {m0}:
                pass
            else:
                nxt = t0 - {m0}
                if len(nxt) != 1:
                    raise Unsupported('loop state')
                m1 = next(iter(nxt))
                if trans[m1] != {m1}:
                    raise Unsupported('loop state')
                H1s = start({l: open_(v) for l, v in m1})
                if m0 in t0:
                    # a latch: set by some elements; the rest must not depend on it
                    def same(x):
                        if peel:
                            for t in accs.values():
                                W().accinfo[t] = True
                        a, b = run(x, HP), None
                        W().E = []
                        b = run(x, H1s)
                        W().E = []
                        return all(sx.eq_seq(cut(l, get(a, l)), cut(l, get(b, l))) for l in accs)
                    if not all(sx.forall(S, ety, same)):
                        seps = None if peel else separators(HP, H1s, m1)
                        if seps is None:
                            raise Unsupported('a loop that depends on its state')
                    if peel:
                        raise Unsupported('a latch in a separated loop')

                    def sets(x):
                        H1 = run(x, HP)
                        return all(closed(get(H1, l)) == v for l, v in m1)
                    if sx.decide_any(S, ety, sets):
                        final = m1
                else:
                    seps = None if peel or any(has_e.values()) else separators(HP, H1s, m1)
                    if seps is None:
                        fn0_from = True
                        rest = H1s
                    if sx.decide_any(S, ety, lambda x: True, 'nonempty' if isinstance(part, O) else None) \
                            if isinstance(part, O) else self.nonempty_part(S, ety, els):
                        final = m1
                    if not isinstance(part, O) and seps is None:
                        # the first element that is really there
                        def always(x):
                            return len(els(x)) == 1
                        if not all(sx.forall(S, ety, always)):
                            raise Unsupported('a separated loop over a filtered list')
        if fn0_from and any(has_e.values()):
            raise Unsupported('a report in a separated loop')
        if peel:
            # after the first element the accumulators that matter are not empty
            def grows(x):
                H1 = run(x, H0)
                return [sx.seq_nonempty(get(H1, l)) for l in accs]
            rows = sx.forall(S, ety, grows)
            ok = {t: all(r[i] for r in rows) for i, t in enumerate(accs.values())}
        else:
            ok = {}

        def mk(leaf, H, first):
            def fn(x):
                w = W()
                keep = dict(w.accinfo)
                if not first:
                    for t, v in ok.items():
                        if v:
                            w.accinfo[t] = True
                try:
                    v = get(run(x, H), leaf)
                except NeedFirst:
                    raise Unsupported('emptiness of a sequence under construction')
                finally:
                    w.accinfo = keep
                if first:
                    return cut(leaf, v, len(get(H0, leaf).parts))
                return cut(leaf, v)
            return fn
        H = dict(H0)
        for leaf in accs:
            init = get(H0, leaf)
            f0 = mk(leaf, H0, True) if fn0_from else None
            if leaf in fronts:
                if f0 or leaf in backs:
                    raise Unsupported('a sequence built from its front')
                if sx.base_of(S)[0][0] == 'groups':
                    raise Unsupported('a map backwards')
                fm = FM(sx.rev(S), ety, mk(leaf, rest, False))
                put(H, leaf, Seq(init.kind, (fm,) + init.parts))
                continue
            fm = FM(S, ety, mk(leaf, rest, False), f0)
            if seps and leaf in seps:
                if leaf in fronts:
                    raise Unsupported('a sequence built from its front')
                one = mk(leaf, HP, False)
                fm = JN(Seq('vec', [FM(S, ety, lambda x, f=one: Seq('vec', [U(f(x))] if els(x) else []))]),
                        Seq('str', [K(seps[leaf])]))
            put(H, leaf, Seq(init.kind, init.parts + (fm,)))
        for leaf, v in final:
            put(H, leaf, open_(v))
        for c in list(H):
            if mine(c) and c not in live:
                del H[c]
        self.heap = H0

        def report(x):
            run(x, HP)
        if any(has_e.values()):
            sx.e_any(S, ety, report)
        self.heap = H

    def nonempty_part(self, S, ety, els):
        return sx.decide_any(S, ety, lambda x: bool(self.quiet(lambda: els(x))))

    # -- loops over the input
    def parse_loop(self, fr, h, info):
        key = (fr.fid, h)
        st = fr.exits.get(h)
        if st is not None:
            raise Violated('loop', 'the code goes on where the contract stops', ())
        w = W()
        k = self.nparse
        if k >= len(w.loops):
            raise Unsupported('a loop without a contract: %s' % fr.f.name)
        self.nparse += 1
        rec = w.loops[k]
        region = info['loops'][h]
        live = self.live_cells(fr, info['live'][h])
        H0 = self.heap

        def is_live(c):
            return c in H0 and (c[0] != fr.fid or c in live)

        accs, modes, cur = {}, {}, {}
        cand = {}
        pairs = set()

        def mode_of(H):
            return tuple(sorted(((l, closed(get(H, l))) for l in modes), key=repr))

        def start(m):
            H = dict(H0)
            for leaf in accs:
                H_put_acc(H, leaf)
            for leaf, v in m:
                put(H, leaf, open_(v))
            for c in cur:
                H[c] = rec['LCg']
            return H

        def H_put_acc(H, leaf):
            put(H, leaf, Seq(get(H, leaf).kind, [O(accs[leaf])]))

        class Again(Exception):
            pass

        noadv = set()
        other = set()

        def round_():
            pairs.clear()
            other.clear()
            noadv.clear()
            cand.clear()
            todo = [(rec['mode0'], None)]
            seen = set()
            while todo:
                m, n = todo.pop()
                if (m, n) in seen:
                    continue
                seen.add((m, n))
                if len(seen) > 16:
                    raise Unsupported('too many loop states')
                H = dict(H0) if n is None else start(n)
                c0 = rec['c0'] if n is None else rec['LCg']
                if n is None:
                    for c in cur:
                        if H0[c] != rec['c0']:
                            raise Violated('loop', 'the loop starts at another token', ())

                def b(w2):
                    w2.E = []
                    r = self.host.spec_step(rec, c0, m)
                    if r is None:
                        raise Prune()
                    m2, c2, deltas = r
                    es, w2.E = w2.E, []
                    self.heap = dict(H)
                    np_, self.nparse = self.nparse, len(w2.loops)
                    left = None
                    try:
                        r = self.exec(fr, h, ('header', h), region)
                        if r is not None:
                            left = 'returns'
                    except LoopExit:
                        left = 'leaves the loop'
                    except Abort:
                        left = 'aborts'
                    finally:
                        H1, self.heap = self.heap, H0
                        self.nparse = np_
                    ei, w2.E = w2.E, []
                    bad = self.host.compare_reports(es, ei, rec)
                    if left:
                        if bad is True:
                            if left != 'aborts':
                                raise Unsupported('leaves a loop after a report')
                            return None
                        raise Violated('loop', 'the code %s where the contract goes on' % left, rec['lab'])
                    ch = {}
                    for c in H:
                        if is_live(c) and H1.get(c) is not H[c]:
                            if isinstance(H[c], tuple) and isinstance(H1.get(c), tuple):
                                if H[c] != H1[c]:
                                    ch[(c, 'cursor')] = (H[c], H1[c])
                            else:
                                diff(H[c], H1.get(c, UNINIT), (c, ()), ch)
                    new = False
                    for leaf, (a, bb_) in ch.items():
                        if leaf[1] == 'cursor':
                            if leaf[0] not in cur:
                                cur[leaf[0]] = True
                                new = True
                        elif isinstance(a, Seq) and isinstance(bb_, Seq):
                            if leaf not in accs:
                                accs[leaf] = W().fresh('pacc')
                                new = True
                            elif tuple(bb_.parts[:len(a.parts)]) != tuple(a.parts):
                                if tuple(bb_.parts[-len(a.parts):]) != tuple(a.parts):
                                    raise Unsupported('a loop that rewrites a sequence')
                                other.add(leaf)     # built from its front
                        elif leaf not in modes:
                            modes[leaf] = True
                            new = True
                    if new:
                        raise Again()
                    cs = {H1[c] for c in cur}
                    n2 = mode_of(H1)
                    if bad is not True:
                        for c in cs:
                            if c != c2:
                                raise Violated('loop', 'after one round the code is at %s, the contract at %s'
                                               % (sx.show(c), sx.show(c2)), rec['lab'])
                        if not cs and c2 != c0:
                            raise Violated('loop', 'one round consumes nothing', rec['lab'])
                        for leaf in accs:
                            v = get(H1, leaf)
                            d = Seq(v.kind, v.parts[len(get(H, leaf).parts):])
                            js = set() if leaf in other else {j for j, e in enumerate(deltas) if self.host.same(d, e)}
                            cand[leaf] = js if leaf not in cand else cand[leaf] & js
                    c1 = next(iter(cs)) if cs else c0
                    if not self.host.advances(c1, c0):
                        noadv.add((n, n2))
                    return (m2, n2)
                res = sx.explore(b, W())
                for r in res:
                    if r is not None:
                        pairs.add(r)
                        todo.append(r)
            return

        for _ in range(20):
            try:
                round_()
                break
            except Again:
                continue
        else:
            raise Unsupported('loop effects')
        # rounds that do not advance must not repeat for ever
        g = {}
        for a, b_ in noadv:
            g.setdefault(a, set()).add(b_)
        for a in g:
            st, seen = list(g[a]), set()
            while st:
                x = st.pop()
                if x == a:
                    raise Violated('termination', 'a loop that does not advance', ('C03',))
                if x not in seen:
                    seen.add(x)
                    st += g.get(x, ())
        fr.exits[h] = rec
        if rec['zero']:
            if cur and any(H0[c] != rec['c0'] for c in cur):
                raise Violated('loop', 'the loop starts at another token', rec['lab'])
            return
        ns = sorted({n for m, n in pairs if m == rec['mode']}, key=repr)
        if not ns:
            raise Prune()
        n = ns[0]
        for x in ns[1:]:
            if W().choose():
                n = x
        H = dict(H0)
        for leaf in accs:
            v = get(H0, leaf)
            js = sorted(cand.get(leaf, ()))
            t = ('lacc', rec['k'], js[0]) if js else ('unk', rec['k'], repr(leaf))
            put(H, leaf, Seq(v.kind, v.parts + (O(t),)))
        for leaf, v in n:
            put(H, leaf, open_(v))
        for c in cur:
            H[c] = rec['LC']
        for c in list(H):
            if c[0] == fr.fid and c not in live:
                del H[c]
        self.heap = H
        w.E.append(('A', ('lerr', rec['k']), rec['lab']))


class LeftEarly(Unsupported):
    pass


class LoopExit(Exception):
    pass


def refs_in(v, out):
    if isinstance(v, Ref):
        out.append(v.cell)
    elif isinstance(v, PB):
        out.append(v.cell)
    elif isinstance(v, GRef):
        out.append(v.ref.cell)
    elif isinstance(v, Clo):
        for _, x in v.caps:
            refs_in(x, out)
    elif isinstance(v, Adt):
        for x in v.f.values():
            refs_in(x, out)
    elif isinstance(v, Tup):
        for x in v.xs:
            refs_in(x, out)
    elif isinstance(v, It):
        for s in v.stages:
            for x in s[1:]:
                refs_in(x, out)
        for p in v.parts:
            if isinstance(p, U):
                refs_in(p.v, out)


def get(H, leaf):
    c, path = leaf
    v = H.get(c, UNINIT)
    for n in path:
        v = v.xs[int(n)] if isinstance(v, Tup) else v.f[n]
    return v


def put(H, leaf, val):
    c, path = leaf

    def up(v, path):
        if not path:
            return val
        if isinstance(v, Tup):
            xs = list(v.xs)
            xs[int(path[0])] = up(xs[int(path[0])], path[1:])
            return Tup(xs)
        f = dict(v.f)
        f[path[0]] = up(f[path[0]], path[1:])
        return Adt(v.ty, v.var, f)
    H[c] = up(H.get(c, UNINIT), path)


def tail(v):
    return Seq(v.kind, v.parts[1:])


def diff(a, b, leaf, out):
    """the leaves that differ"""
    if a is b:
        return
    c, path = leaf
    if isinstance(a, Adt) and isinstance(b, Adt) and a.ty == b.ty and a.var == b.var and set(a.f) == set(b.f):
        for n in a.f:
            diff(a.f[n], b.f[n], (c, path + (n,)), out)
        return
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
        for i in range(len(a.xs)):
            diff(a.xs[i], b.xs[i], (c, path + (str(i),)), out)
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.parts == b.parts:
            return
        out[leaf] = (a, b)
        return
    if isinstance(a, It) and isinstance(b, It):
        if a.parts == b.parts and a.stages == b.stages:
            return
    if a is not UNINIT and b is not UNINIT:
        try:
            if closed(a) == closed(b):
                return
        except Unsupported:
            pass
    out[leaf] = (a, b)


def closed(v):
    """a hashable form of a value without symbols"""
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, int):
        return ('pos',) if v > 0 else ('n', v)
    if v is POS:
        return ('pos',)
    if isinstance(v, Const):
        return ('c', v.name)
    if isinstance(v, Adt):
        return ('adt', v.ty, v.var, tuple((k, closed(x)) for k, x in v.f.items()))
    if isinstance(v, Tup):
        return ('tup', tuple(closed(x) for x in v.xs))
    raise Unsupported('a loop that changes %r' % (v,))


CONSTS = {c.name: c for c in (SPAN, UNIT, TOK, ERR, ANY, UNINIT)}


def open_(t):
    k = t[0]
    if k in ('b', 'n'):
        return t[1]
    if k == 'pos':
        return POS
    if k == 'c':
        return CONSTS[t[1]]
    if k == 'adt':
        return Adt(t[1], t[2], {n: open_(x) for n, x in t[3]})
    return Tup([open_(x) for x in t[1]])
