"""Parser for rustc's textual MIR (-Zmir-opt-level=0 --emit=mir), and the
extraction step that produces it from /repo's working tree on every run.

Nothing of a function body is dropped except: cleanup (unwind) blocks, storage
markers and `drop`s (trusted to be the language's), debug scopes and spans."""
import os, re


class MirError(Exception):
    pass


# --------------------------------------------------------------- text helpers
CHAR_RE = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'")


def skip_lit(s, i):
    """If a string/char literal starts at i return the index after it, else i."""
    c = s[i]
    if c == '"':
        j = i + 1
        while s[j] != '"':
            j += 2 if s[j] == '\\' else 1
        return j + 1
    if c == "'":
        m = CHAR_RE.match(s, i)
        if m:
            return m.end()
    return i


OPEN, CLOSE = '([{<', ')]}>'


def split_top(s, sep=','):
    """Splits at top level separators, aware of brackets (and angle brackets) and literals."""
    out, d, start, i = [], 0, 0, 0
    while i < len(s):
        j = skip_lit(s, i)
        if j > i:
            i = j
            continue
        c = s[i]
        if c in OPEN:
            d += 1
        elif c in CLOSE:
            if c == '>' and i and s[i - 1] in '-=':
                pass
            else:
                d -= 1
        elif d == 0 and s.startswith(sep, i):
            out.append(s[start:i].strip())
            start = i + len(sep)
            i += len(sep)
            continue
        i += 1
    last = s[start:].strip()
    if last:
        out.append(last)
    return out


def last_group(s, op='(', cl=')'):
    """s ends with `cl`; index of its matching `op`."""
    st, i = [], 0
    while i < len(s):
        j = skip_lit(s, i)
        if j > i:
            i = j
            continue
        c = s[i]
        if c in '([{':
            st.append(i)
        elif c in ')]}':
            o = st.pop()
            if i == len(s) - 1:
                return o
        i += 1
    raise MirError('unbalanced: ' + s[:120])


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            c = s[i + 1]
            if c == 'u':
                j = s.index('}', i)
                out.append(chr(int(s[i + 3:j], 16)))
                i = j + 1
                continue
            out.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(c, c))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


# --------------------------------------------------------------- places etc.
# place: (local, [proj...]) ; proj: ('*',) ('f', i, ty) ('as', V) ('idx', local) ('cidx', i)
def parse_place(s):
    s = s.strip()
    p, rest = _place(s)
    if rest.strip():
        raise MirError('place: ' + s)
    return p


def _place(s):
    if s.startswith('_'):
        m = re.match(r'_(\d+)', s)
        base, rest = (int(m.group(1)), ()), s[m.end():]
    elif s.startswith('(*'):
        base, rest = _place(s[2:])
        base = (base[0], base[1] + (('*',),))
        assert rest[0] == ')', s
        rest = rest[1:]
    elif s.startswith('('):
        base, rest = _place(s[1:])
        if rest.startswith('.'):
            m = re.match(r'\.(\d+): ', rest)
            i = m.end()
            d = 0
            j = i
            while True:
                c = rest[j]
                if c in OPEN:
                    d += 1
                elif c in CLOSE and not (c == '>' and rest[j - 1] in '-='):
                    if d == 0:
                        break
                    d -= 1
                j += 1
            base = (base[0], base[1] + (('f', int(m.group(1)), rest[i:j]),))
            rest = rest[j + 1:]
        elif rest.startswith(' as subtype '):
            j = _close(rest)
            rest = rest[j + 1:]
        elif rest.startswith(' as '):
            m = re.match(r' as (\w+)\)', rest)
            base = (base[0], base[1] + (('as', m.group(1)),))
            rest = rest[m.end():]
        else:
            raise MirError('place? ' + s)
    else:
        raise MirError('place: ' + s)
    while rest.startswith('['):
        m = re.match(r'\[_(\d+)\]', rest)
        if m:
            base = (base[0], base[1] + (('idx', int(m.group(1))),))
        else:
            m = re.match(r'\[(-?\d+) of \d+\]', rest)
            if not m:
                raise MirError('place idx: ' + rest)
            base = (base[0], base[1] + (('cidx', int(m.group(1))),))
        rest = rest[m.end():]
    return base, rest


def _close(s):
    d = 0
    for j, c in enumerate(s):
        if c in OPEN:
            d += 1
        elif c in CLOSE and not (c == '>' and s[j - 1] in '-='):
            if d == 0:
                return j
            d -= 1
    raise MirError('close ' + s)


# operand: ('mv', place) ('cp', place) ('k', const)
# const: ('str',s) ('int',n) ('chr',c) ('bool',b) ('unit',) ('path', text)
def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('mv', parse_place(s[5:]))
    if s.startswith('copy '):
        return ('cp', parse_place(s[5:]))
    if s.startswith('const '):
        return ('k', parse_const(s[6:].strip()))
    return ('k', ('path', s))


def parse_const(s):
    if s.startswith('"'):
        return ('str', unescape(s[1:-1]))
    if s.startswith('b"'):
        return ('str', unescape(s[2:-1]))
    if s.startswith("'") and s.endswith("'"):
        return ('chr', unescape(s[1:-1]))
    if s in ('true', 'false'):
        return ('bool', s == 'true')
    if s == '()':
        return ('unit',)
    m = re.fullmatch(r'(-?\d+)_(u|i)(\d+|size)', s)
    if m:
        return ('int', int(m.group(1)))
    return ('path', s)


BINOPS = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Offset', 'Shl', 'Shr', 'Cmp'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&raw '):
        m = re.match(r'&raw (const|mut) ', s)
        return ('ref', s.startswith('&raw mut'), parse_place(s[m.end():]))
    if s.startswith('&mut '):
        return ('ref', True, parse_place(s[5:]))
    if s.startswith('&') and not s.startswith('&&'):
        t = s[1:]
        m = re.match(r"'\w+ ", t)
        if m:
            t = t[m.end():]
        if t.startswith('fake'):
            return ('nop',)
        return ('ref', False, parse_place(t))
    if s.startswith('discriminant('):
        return ('disc', parse_place(s[len('discriminant('):-1]))
    if s.startswith('deref_copy '):
        return ('use', ('cp', parse_place(s[len('deref_copy '):])))
    m = re.match(r'(\w+)\(', s)
    if m and m.group(1) in BINOPS:
        return ('bin', m.group(1), [parse_operand(x) for x in split_top(s[m.end():-1])])
    if m and m.group(1) in UNOPS:
        return ('un', m.group(1), parse_operand(s[m.end():-1]))
    if m and m.group(1) in ('Len',):
        return ('len', parse_place(s[m.end():-1]))
    if m and m.group(1) in ('SizeOf', 'AlignOf', 'OffsetOf'):
        return ('opaque', s)
    if m and m.group(1) == 'ShallowInitBox':
        return ('use', parse_operand(split_top(s[m.end():-1])[0]))
    if m and m.group(1) == 'CopyForDeref':
        return ('use', ('cp', parse_place(s[m.end():-1])))
    # casts
    mm = re.match(r'^(.*) as (.*) \((\w+)(\(.*\))?\)$', s)
    if mm and (s.startswith('move ') or s.startswith('copy ') or s.startswith('const ')) and not s.startswith('const "'):
        return ('cast', parse_operand(mm.group(1)), mm.group(2), mm.group(3))
    if s.startswith('const "') and s.endswith(')') and ' as ' in s:
        mm = re.match(r'^(const "(?:\\.|[^"\\])*") as (.*) \((\w+)(\(.*\))?\)$', s)
        if mm:
            return ('cast', parse_operand(mm.group(1)), mm.group(2), mm.group(3))
    if s.startswith(('move ', 'copy ', 'const ')):
        return ('use', parse_operand(s))
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{closure@'):
        j = s.index('}')
        ty = s[:j + 1]
        rest = s[j + 1:].strip()
        caps = []
        if rest:
            for f in split_top(rest[1:-1].strip()):
                k, v = f.split(': ', 1)
                caps.append((k, parse_operand(v)))
        return ('closure', ty, caps)
    # aggregates / unit paths
    if s.endswith(' }') or s.endswith('{}'):
        o = last_group(s)
        path = s[:o].strip()
        fields = []
        for f in split_top(s[o + 1:-1].strip()):
            k, v = f.split(': ', 1)
            fields.append((k, parse_operand(v)))
        return ('adt', path, fields)
    if s.endswith(')'):
        o = last_group(s)
        return ('adt', s[:o].strip(), [(None, parse_operand(x)) for x in split_top(s[o + 1:-1])])
    return ('adt', s, [])


class Func:
    __slots__ = ('name', 'raw', 'params', 'ret', 'tys', 'blocks', 'debug', 'is_const', 'key', 'line', 'generics',
                 'loops', 'impl', 'header')


TERM_RE = re.compile(r'^(goto|switchInt|return|unreachable|resume|assert|drop|falseEdge|falseUnwind|terminate)\b')


def parse_block_line(s):
    s = s.strip()
    assert s.endswith(';'), s
    s = s[:-1]
    if s.startswith(('StorageLive', 'StorageDead', 'ConstEvalCounter', 'nop', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'Retag', 'Coverage', 'BackwardIncompatibleDropHint')):
        return None
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s.startswith('resume') or s.startswith('terminate'):
        return ('resume',)
    if s.startswith('goto -> '):
        return ('goto', int(s[10:]))
    if s.startswith('switchInt('):
        m = re.match(r'switchInt\((.*)\) -> \[(.*)\]$', s)
        tg = []
        other = None
        for t in m.group(2).split(', '):
            k, v = t.split(': ')
            if k == 'otherwise':
                other = int(v[2:])
            else:
                tg.append((int(k), int(v[2:])))
        return ('switch', parse_operand(m.group(1)), tg, other)
    if s.startswith('drop('):
        m = re.search(r'\[return: bb(\d+)', s)
        if not m:
            m = re.search(r'-> bb(\d+)', s)
        return ('goto', int(m.group(1)))
    if s.startswith('assert('):
        m = re.match(r'assert\((.*)\) -> \[success: bb(\d+)', s)
        parts = split_top(m.group(1))
        c = parts[0]
        exp = True
        if c.startswith('!'):
            exp = False
            c = c[1:]
        return ('assert', parse_operand(c), exp, int(m.group(2)), ', '.join(parts[1:]))
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        m = re.search(r'real: bb(\d+)', s)
        return ('goto', int(m.group(1)))
    # assignment or call
    m = re.match(r'^(.*?) = (.*)$', s)
    if not m:
        raise MirError('stmt: ' + s)
    # find top-level ' = '
    parts = split_eq(s)
    lhs, rhs = parts
    # call?
    tail = None
    for mm in re.finditer(r'\) -> ', rhs):
        tail = mm
    if tail and not rhs.startswith('const "'):
        tgt = rhs[tail.end():]
        if re.match(r'^(\[return: bb\d+.*\]|bb\d+|unwind .*)$', tgt):
            call = rhs[:tail.start() + 1]
            o = last_group(call)
            callee = call[:o].strip()
            args = [parse_operand(x) for x in split_top(call[o + 1:-1])]
            r = re.match(r'\[return: bb(\d+)', tgt)
            return ('call', parse_place(lhs), callee, args, int(r.group(1)) if r else None)
    return ('assign', parse_place(lhs), parse_rvalue(rhs))


def split_eq(s):
    d = 0
    i = 0
    while i < len(s):
        j = skip_lit(s, i)
        if j > i:
            i = j
            continue
        c = s[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif d == 0 and s.startswith(' = ', i):
            return s[:i], s[i + 3:]
        i += 1
    raise MirError('no = in ' + s)


HDR = re.compile(r'^(?:const fn |fn )(.*)\{$')


def parse_mir(text, strict=False):
    lines = text.split('\n')
    funcs = {}
    errors = {}
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l and not l.startswith((' ', '}', '//', 'alloc')) and l.endswith('{'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            try:
                f = parse_func(lines[i], lines[i + 1:j])
                f.line = i + 1
                if f.name not in funcs:
                    funcs[f.name] = f
            except Exception as e:  # a construct the front end does not know
                nm = re.sub(r'^(const fn|fn|const|static) ', '', l).split('(_1')[0]
                errors[nm] = '%s: %s' % (type(e).__name__, e)
                if strict:
                    raise
            i = j + 1
        else:
            i += 1
    return funcs, errors


def parse_func(hdr, body):
    f = Func()
    f.header = hdr
    f.tys = {}
    f.params = []
    f.blocks = {}
    f.debug = []
    f.is_const = not re.match(r'^(const fn|fn|unsafe fn) ', hdr)
    f.generics = None
    f.loops = None
    f.impl = None
    f.key = None
    if f.is_const:
        s = re.sub(r'^(const|static) ', '', hdr)[:-1].strip()
        # NAME: TY =
        m = re.match(r'^(.*?): ([^:].*) =$', s)
        # choose split at last ': ' that is followed by type and not inside <impl at ..>
        parts = split_colon(s[:-1].strip() if s.endswith('=') else s)
        f.name, f.ret = parts
    else:
        s = re.sub(r'^(const fn|fn|unsafe fn) ', '', hdr)[:-1].strip()
        # name(params) -> ret
        o = None
        d = 0
        k = 0
        while k < len(s):
            c = s[k]
            if c in '<[{':
                d += 1
            elif c in '>]}' and not (c == '>' and s[k - 1] in '-='):
                d -= 1
            elif c == '(' and d == 0:
                o = k
                break
            k += 1
        f.name = s[:o]
        d = 0
        k = o
        while True:
            c = s[k]
            if c in '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    break
            k += 1
        ps = s[o + 1:k]
        f.ret = s[k + 1:].strip()
        f.ret = f.ret[3:].strip() if f.ret.startswith('->') else '()'
        for p in split_top(ps):
            m = re.match(r'_(\d+): (.*)$', p)
            f.params.append(int(m.group(1)))
            f.tys[int(m.group(1))] = m.group(2)
    f.raw = f.name
    i = 0
    while i < len(body):
        l = body[i].strip()
        m = re.match(r'^let (?:mut )?_(\d+): (.*);$', l)
        if m:
            f.tys[int(m.group(1))] = m.group(2)
            i += 1
            continue
        m = re.match(r'^debug (.*) => (.*);$', l)
        if m:
            f.debug.append((m.group(1), m.group(2)))
            i += 1
            continue
        m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', l)
        if m:
            j = i + 1
            while body[j].rstrip() != '    }':
                j += 1
            if not m.group(2):
                stmts = []
                for x in body[i + 1:j]:
                    t = parse_block_line(x)
                    if t is not None:
                        stmts.append(t)
                f.blocks[int(m.group(1))] = stmts
            i = j + 1
            continue
        i += 1
    return f


def split_colon(s):
    d = 0
    for i, c in enumerate(s):
        if c in OPEN:
            d += 1
        elif c in CLOSE and not (c == '>' and s[i - 1] in '-='):
            d -= 1
        elif d == 0 and s.startswith(': ', i):
            return s[:i], s[i + 2:]
    raise MirError('no colon: ' + s)


# ------------------------------------------------------------------ callee names
def norm_path(s):
    """Parses a callee / path. Returns dict(self=..., trait=..., segs=[...], gen=[...last generics...])."""
    s = s.strip()
    if s.startswith('<') and (not s.startswith('<impl ') or top_as(s[1:close_lt(s)]) is not None):
        # <A as B>::m::<G>  or <A>::m
        d = 0
        for i, c in enumerate(s):
            if c in OPEN:
                d += 1
            elif c in CLOSE and not (c == '>' and s[i - 1] in '-='):
                d -= 1
                if d == 0:
                    break
        inner, rest = s[1:i], s[i + 1:]
        k = top_as(inner)
        if k is not None:
            selfty, trait = inner[:k], inner[k + 4:]
        else:
            selfty, trait = inner, None
        segs, gens = segs_of(rest[2:] if rest.startswith('::') else rest)
        return {'self': selfty, 'trait': trait, 'segs': segs, 'gens': gens}
    segs, gens = segs_of(s)
    return {'self': None, 'trait': None, 'segs': segs, 'gens': gens}


def close_lt(s):
    d = 0
    for i, c in enumerate(s):
        if c in OPEN:
            d += 1
        elif c in CLOSE and not (c == '>' and s[i - 1] in '-='):
            d -= 1
            if d == 0:
                return i
    return len(s)


def top_as(s):
    d = 0
    for i, c in enumerate(s):
        if c in OPEN:
            d += 1
        elif c in CLOSE and not (c == '>' and s[i - 1] in '-='):
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return i
    return None


def segs_of(s):
    parts = split_top(s, '::')
    segs, gens = [], []
    for p in parts:
        if p.startswith('<') and (not p.startswith('<impl') or segs and segs[-1][:1].isupper()):
            gens.append((len(segs) - 1, split_top(p[1:-1])))
        elif p.startswith('<impl'):
            segs.append(p)
        else:
            m = re.match(r'^([\w#{}]+)<(.*)>$', p)
            if m and not p.startswith('{'):
                segs.append(m.group(1))
                gens.append((len(segs) - 1, split_top(m.group(2))))
            else:
                segs.append(p)
    return segs, gens


def strip_ref(t):
    t = t.strip()
    while True:
        m = re.match(r"^&('\w+ )?(mut )?", t)
        if m and m.end():
            t = t[m.end():].strip()
        else:
            return t


def ty_last(t):
    """Last path segment of a type without generics."""
    t = strip_ref(t)
    if t.startswith(('(', '[', '{', 'impl ', 'fn', 'for<')):
        return t
    segs, _ = segs_of(t)
    return segs[-1]
