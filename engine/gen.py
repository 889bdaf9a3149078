"""Inputs for the replay harness: systematic families plus a seeded random
grammar, both widened by the string constants found in the code under check."""
import itertools
import random
import re

NAMES = ['a', 'checked', 'data-index', 'class', 'style', 'aria-label', 'ref', 'id', 'type', 'r#type',
         'a-long-name', '--var', '-x', 'x-1', 'b-2c', 'self', 'Self', 'super', 'crate', '_', '-', 'for', 'aria', 'aria-',
         'data-', 'x--y', 'value', 'true', 'slot', 'clone', 'key_1', 'r#fn-x', 'a-r#b', 'inner_html', 'Abc', 'X-y',
         'class-x', 'style-y', 'node_ref', 'xlink-href', 'f', 'http-equiv', 'aria_label', 'my-aria-x', 'a-', 'ref-x',
         '-1', '--', '--1', 'href', 'key-true', 'classes', 'css-style', 'k-0x1f', 'r#ref', 'r#class', 'data_x', 'on-x']
HTML = ['div', 'span', 'input', 'p', 'br', 'button', 'a', 'title', 'slot', 'use_x', 'script', 'style', 'r#type']
SVG = ['svg', 'path', 'use', 'use_', 'feBlend', 'view', 'animate', 'switch', 'tspan', 'g', 'textPath']
MATH = ['math', 'mi', 'mrow', 'annotation', 'semantics', 'munderover', 'ms']
WEB = ['my-element', 'a-b-c', 'x-1', '-x', 'font-face', 'iconify-icon', 'Up-case', 'svg-x', 'math-y', '--x', 'x-', 'a-r#b']
COMP = ['Comp', 'Await', 'A', 'X1', 'my::Comp', '::leptos::For', 'self::X', 'Comp<T>', 'Comp::<T>', 'm::Comp<A, B>',
        'Comp<Vec<u8>>', 'comp<T>', 'm::n::C', 'Self', 'super::a::B', 'lower::path', 'HTMLx', 'Svg', '::X', 'a<T>::b',
        'Comp<A>::Y<B>', 'r#Comp', 'Comp<(A,B)>', 'A_b']
SLOTS = ['Slot', 'ThenSlot', 'If', 'AbcDef', 'HTMLPart', 'Slot<T>', 'A', 'B1', 'Self', 'r#If', 'S_x', 'Tabs', 'X', 'ABC',
         'IF', 'TABS', 'Abcdef', 'AbcDEF', 'Abc_Def', 'Then_Slot', 'B_1']
BADSLOTS = ['div', 'm::Slot', 'my-el', 'path', '::S', 'mi']
VALUES = ['"s"', '1', 'true', 'false', '-1', '1.5', '{x}', '{}', '{ a; b }', '[x]', '[]', '[x.get(), y]', 'f["{}", x]',
          'f[]', "'c'", 'b"x"', 'r"raw"', 'r#"ra"w"#', '{move || x}', '{"s"}', '[a; b]', '{ {a} }', '(-1)', '"a\\"b\\n"',
          '{..}', '{x, y}', '1u8', '"-"', '"class"', '""', '[..x]', '{|a| b}', '{;}', '[|x| y]', '{a::<B>()}', '"{x}"',
          '{(1, 2)}', '{[1]}', '{(a)}', '[(a)]', '[[a]]', '[{a}]', '{{a} {b}}', '{,}', '{a,}', '[a,]', '{-1}', '[-1]', '{"s";}', 'f["{}"]', 'f["{x}",]',
          '[()]', '{()}', '{((a))}', '[move || a]', '[|| a]', '{move |x| a}', 'f[("a")]', 'f[x]', '{&a}', '[&a]', '{r#a}', '{a.b}', '{#[x] a}',
          '{true}', '["s"]', '[1]', '{return}', '[return]', '{a?}', '[a.await]', '{async {a}}', 'f["{}{}", a, (b, c)]', '1.5e3', '0xff', '1_000', "b'x'",
          'c"s"', '"\\u{1F600}"', '{::a}', '[::a]', '{<A as B>::c}', '{a!{b}}', '{unsafe {a}}', '[if a {b} else {c}]', '{a | b}', '{|| a}']
BADVALUES = ['x', '(x)', '', ';', 'g["x"]', 'move["x"]', '|x|', '&x', '<', '=', 'F["x"]', 'ff["x"]', 'r#f["x"]', 'format!["x"]']
DIRS = ['class', 'style', 'attr', 'on', 'prop', 'use', 'clone']
BADDIRS = ['foo', 'r#class', 'Class', 'let', 'bind', 'x', 'ref', 'slot', 'self', 'on_', 'classes', 'styles', 'r#on', 'r#clone', 'props',
           'event', 'attribute', 'id', 'true', '_']
DKEYS = ['a', 'click', 'my-key', '"str"', '"my key"', 'class', 'style', 'aria-x', 'data-x', '--var', '"--v"', '"class"',
         '"style"', 'self', '_', 'r#type', 'type', 'x-1', '-', '"aria-x"', '"a-b"', '""', 'r"q"', 'Self', 'a-r#b', 'r#class',
         'r#style', 'color', 'value', 'aria', 'custom-Event', 'super']
DVALUES = ['', '="v"', '={x}', '=[x]', '=f["{}", x]', '=true', '=1', '={}', '=-1', '=[a, b]']
MODS = ['', ':undelegated', ':foo', ':Undelegated', ':r#undelegated', ':capture', ':undelegated:undelegated', ':passive']
ENDS = [';', ' { }', ' ( )', ' { "c" }', ' ( "c" b; )', ' { "a" "b" {c} [d] f["e"] }']
ARGS = ['|x|', '|a, b|', '|Foo { a, .. }|', '||', '| |', '|(a, b)|', '|x: Vec<T>|', '|{"x"}|', '|_|', '|mut x|', '|&x|', '|&&x|', '|[a, ..]|', '|[a]|', '|A::B(x)|',
        "|x: &'a T|", '|x @ 1..=2|', '|A { a: b, .. }|', '|"x"|', '|-1|', '|[]|', '|()|', '|{}|', '|a,|', '|r#a|', '|_, _|', '|..|', '|x: A<B<C>>|', '|&[(a, b), [c]]|', '|f["x"]|', '|x: fn(A) -> B|', '|#[a] x|',
        '|a b|', '|;|', '|move|', '|&mut (a, b)|', '|x = 1|', '|x: impl A + B|', '|a: [u8; 3], b|', '|(|a| b)|', '|[||]|', '|::A(x)|', '|x!()|', '|$|', '|a.b|', '|..=1|', '|<A>::B|', '|!|', '|?|', '|a => b|', '|a == b|', '|a != b|']
JUNK = [';', ',', '|', '=', '<', '>', '::', ':', '..', '.', '#', '-', '(', '{', '[', '"s"', '1', 'x', 'slot:', 'A', 'div', '&',
        '!', '?', "'a'", "'lt ", 'on:', 'class:', '{..x}', '{x}', '[y]', '{..}', 'f[', '|x|', '=>', '==', '||', '->', '@', '$', '...', '..=',
        'slot::', 'slot:A', 'true', 'self', '_', 'r#x', '1.0', '-1', '{a b}', '{a-b}', '{ }', 'a-', ';;', '.x', '#y', '{.. x}', 'f', 'slot',
        '{r#type}', '#', '.x.y', 'clone:', 'clone:x', ':', '::a', 'A<', 'A<T', 'A<T>', '=x', '="v"']


# names of many characters, pieces and capitals
LONG = ['some-rather-long-name-of-a-thing', 'aVeryLongNameInMixedCaseABC', 'AVeryLongNameInMixedCaseABC', 'a-B-c-D-e-F-g-H', 'a-b-c-d-e-f-g-h-i-j', 'a---b--c-d---e', 'A_B_C_D_E_F_G_H',
        '__a__b__c__', 'aria-a-b-c-d-e-f', 'aria-aVeryLongNameInMixedCaseABC', 'aria--', 'Aria-x', 'ARIA-X', 'data-aVeryLongNameInMixedCase', '\u00c9a\u00e9Bc1\u00c9a\u00e9Bc1\u00c9a',
        'viewBoxAndMoreOfTheSame', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'A1B2C3D4', 'fooBarBazQuxQuuxCorge', 'FooBarBazQuxQuuxCorge', 'x1-y2-z3-w4-v5', 'a_b-c_d-e_f-g_h', 'class-', '-class', 'ref_',
        '_ref', 'Ref', 'REF', 'CLASS', 'Style', 'svg_', 'Svg_', '_svg', 'SVG', 'Div', 'DIV', 'mI', 'a-00', 'a-007', '-00-1', 'a-0', 'x-0x0f', 'x-0X0F', 'a-1_000', 'a-0b11', 'a-0o7', 'a-10u8', 'a-1-00-2', 'a-9999999999999999999999999', 'a-1__', 'a-1_u8', 'x-\u00e9', '\u0130x', '\u212ax', 'a\u0301b', 'sva', 'divv', 'a-\u00c9a\u00e9-B']
TEXTS = ['a b c d', 'a  b', ' a', 'a ', '  ', 'A b', 'a-b c-d', 'class ', ' class', 'style\\n', 'aria-x y', '\\t', '.a', '#b', 'a:b', 'a.b', '--v-w', '{a}', 'a/b', 'hover:bg-x/50', '\u00e9 \u00c9', 'a,b',
         'aVeryLongTextInMixedCase ABC', 'a\\"b', "'", 'md:flex lg:grid', '[a]', '&', '<b>', 'a=b', '@x']


def around(n):
    """inputs that have a name (or a text) wherever one can be"""
    import re
    out = []
    if not re.fullmatch(r'-*(r#)?[^\W\d][-\w]*|-+', n) or n == 'r#_':
        if '"' in n.replace('\\"', '') or '\n' in n or '\\' in n and not re.fullmatch(r'([^\\]|\\[nt"\\])*', n):
            return out
        k = '"%s"' % n
        return ['div %s:%s={v} %s:%s;' % (d, k, d, k) for d in DIRS] + ['Comp %s:%s={v} { %s }' % (d, k, k) for d in DIRS] + [
            k, 'div { %s "a" %s }' % (k, k), 'div a=%s b=%s;' % (k, k), 'Comp a=%s { f[%s] }' % (k, k), 'svg class:%s style:%s;' % (k, k), 'Comp { slot:S class:%s { %s } }' % (k, k)]
    for t in ('div', 'svg', 'my-el', 'Comp', 'm::Comp<T>'):
        out += ['%s %s=1 .%s #%s;' % (t, n, n, n), '%s {%s} %s { "c" }' % (t, n, n), '%s %s="v" a=2;' % (t, n)]
    out += ['div %s=1 .%s #%s;' % (n, n, n), 'svg %s={v};' % n, 'Comp %s=1 .%s #%s #k;' % (n, n, n), '%s;' % n, '%s { "c" }' % n, '%s |x| { "c" }' % n, 'div { %s; %s a=1; }' % (n, n),
            '%s %s %s;' % (n, n, n), 'Comp { slot:S %s="v" {%s} %s; }' % (n, n, n), 'Comp %s;' % n, 'Comp .%s .x #%s;' % (n, n), 'Comp #%s .%s .y;' % (n, n), 'Comp { %s { %s } }' % (n, '"c"')]
    for d in DIRS:
        out += ['div %s:%s={v};' % (d, n), 'div %s:%s;' % (d, n), 'div %s:{%s};' % (d, n), 'Comp %s:%s={v} { "c" }' % (d, n), 'Comp %s:{%s} { "c" }' % (d, n), 'Comp %s:%s;' % (d, n),
                'Comp { slot:S %s:%s={v} { "c" } }' % (d, n), 'div %s:"%s"={v};' % (d, n), 'Comp %s:"%s"={v};' % (d, n)]
    if '-' not in n:
        out += ['div %s:a={v};' % n, 'Comp %s:a={v} { "c" }' % n, 'div on:a:%s={v};' % n, 'Comp on:a:%s={v};' % n, 'Comp { slot:%s; slot:%s; }' % (n, n), 'div { %s["x"] }' % n, 'div a=%s[x];' % n,
                'Comp { slot:%s { "x" } slot:%s a=1 { "y" } }' % (n, n), 'm::%s;' % n, '%s<T>;' % n, '%s::A;' % n, 'Comp { slot:%s<T>; }' % n, 'Comp clone:%s clone:%s |%s| { "c" }' % (n, n, n),
                'Comp { slot:A; slot:%s; slot:A; }' % n]
    return out


def systematic(consts=(), extra=(), toks=(), texts=()):
    names = list(dict.fromkeys(NAMES + [c for c in consts if ok_name(c)]))
    dirs = list(dict.fromkeys(DIRS + BADDIRS + [c for c in consts if ok_ident(c)]))
    out = []
    add = out.append
    # values everywhere
    for v in VALUES + BADVALUES:
        add(v)
        add('div { %s }' % v)
        add('Comp { %s }' % v)
        add('div a=%s;' % v)
        add('Comp a=%s;' % v)
        add('div class:a=%s b="x";' % v)
        add('Comp class:a=%s b="x";' % v)
        add('Comp { slot:S a=%s { %s } }' % (v, v))
    for v, w in itertools.product(VALUES[:18], VALUES[:18]):
        add('%s %s' % (v, w))
    # names as keys, on each kind of element
    for n in names:
        for t in ('div', 'svg', 'my-el', 'math', 'Comp', 'Comp<T>'):
            add('%s %s="v";' % (t, n))
            add('%s %s;' % (t, n))
            add('%s {%s};' % (t, n))
            add('%s a="1" %s={v} b="2";' % (t, n))
        add('Comp { slot:S %s="v" {%s} %s; }' % (n, n, n))
        add('div .%s #%s;' % (n, n))
        add('div #%s .%s;' % (n, n))
        add('Comp .%s #%s;' % (n, n))
        add('Comp #%s #zz .%s;' % (n, n))
        add('%s;' % n)
        add('div { %s; }' % n)
        add('%s { "x" }' % n)
        add('%s a="b" .c;' % n)
        add('{%s}' % n)
        add('Comp { slot:%s; }' % n)
        for d in DIRS:
            for t in ('div', 'Comp'):
                add('%s %s:%s={v};' % (t, d, n))
                add('%s %s:{%s};' % (t, d, n))
    # names close to the constants of the code and of the contracts
    near = []
    for c in dict.fromkeys(list(consts) + ['aria-', 'class', 'style', 'ref', 'undelegated', 'slot'] + DIRS):
        if not ok_name(c):
            continue
        near += [c + 'x', c + '_', c + '-x', c + '-', c.rstrip('-') + '-x', 'x-' + c, 'x' + c, '-' + c, c[:-1] or 'x', c.rstrip('-') + 'x-y',
                 c.upper(), c.capitalize(), c + c, c + '-r#' + c.split('-')[0], c + '1', c + '-1', '_' + c]
    near += ['a__', 'a-b__', 'a-b__c', '__a-b', 'a_-b', 'x-2xl', 'x-0x1f', 'x-1_0', 'x-1-2', '\u00e9a', '\u00c9l', 'a-\u00c9', 'a-\u00e9-b', '\u00df', 'a-_-b', 'a-self',
             'self-a', 'Self-a', 'a-crate', '_-', '_-a', '-_', 'ab-cd-ef-gh', 'a-1u8', 'a-true', 'true-a', 'x-0', 'abCd', 'aB-cD', '\u01c5x']
    for n in dict.fromkeys(near):
        add('div %s=1 .%s #%s;' % (n, n, n))
        add('svg %s={v};' % n)
        add('Comp %s=1 .%s #%s #k;' % (n, n, n))
        add('%s;' % n)
        add('%s { "c" }' % n)
        add('div {%s} class:%s={v} on:%s={w} use:%s;' % (n, n, n, n))
        add('Comp attr:%s={v} on:%s={w} prop:%s={u} class:%s style:%s;' % (n, n, n, n, n))
        for d in DIRS:
            add('div %s:"%s"={v};' % (d, n))
            add('Comp %s:"%s"={v} { "%s" }' % (d, n, n))
        if '-' not in n:
            add('div %s:a={v};' % n)
            add('Comp %s:a={v} { "c" }' % n)
            add('div on:a:%s={v};' % n)
            add('Comp { slot:%s; slot:%s; }' % (n, n))
            add('div { %s["x"] }' % n)
            add('div a=%s[x];' % n)
    for n in dict.fromkeys(list(extra) + list(texts) + LONG + TEXTS):
        out += around(n)
    # short sequences of tokens inside the brackets of a value
    alpha = ['a', ',', ';', '"s"', '|', '..', '(b)', '{c}', '[]', '=', '1', '&'] + [t for t in toks if t not in ('a', ',', ';', '|', '..', '=', '1', '&')][:6]
    for k in (1, 2, 3):
        for ts in itertools.product(alpha[:12 if k < 3 else 9] + (alpha[12:] if k < 3 else alpha[12:14]), repeat=k):
            x = ' '.join(ts)
            if k < 3:
                add('"0" {%s} [%s] f[%s] "1"' % (x, x, x))
                add('div a={%s} b=[%s] c=f[%s] class:d={%s};' % (x, x, x, x))
                add('Comp a={%s} b=[%s] c=f[%s] on:d={%s} { "c" {%s} }' % (x, x, x, x, x))
                add('Comp { [%s] f[%s] slot:S a=f[%s]; }' % (x, x, x))
                add('div {%s};' % x)
                add('div {..%s};' % x)
                add('Comp |%s| { "c" }' % x if '|' not in x else 'Comp {..%s};' % x)
                add('Comp<%s>;' % x)
                add('"0" f[%s]' % x)
                add('div a=f[%s];' % x)
            else:
                add('"0" {%s} [%s] f[%s]' % (x, x, x))
                add('Comp a={%s} b=[%s] c=f[%s] {..%s} { "c" }' % (x, x, x, x))
    for q in ('"s",,', '"s",a,', '"s",a,,', '"s",a=b', '"{}", a, b,', '"s";', '"s" "t"', '"s", {a}', '"s", [a]', '"s", f["t"]', 'a!()', '"s", a!()', '"s", |x| y', '"s", a = b, c = d,',
              'r"s", a', 'concat!("a", "b"), c', '"s", a::<B, C>()', '"s",a,b,c,d,e,f,g,h', '"s", (a, b,),', ',,', ',"s"', 'a.b().c', '"{a}"', '"{a:?}", a = 1', 'Some("s")', '[..]', '("s", a)'):
        for t in ('f[%s]', '[%s]', '{%s}', 'div a=f[%s];', 'div a={%s};', 'div a=[%s];', 'Comp a=f[%s] b={%s} c=[%s];', 'div { f[%s] {%s} [%s] }', 'Comp { f[%s] }', 'Comp class:a=f[%s] { {%s} }',
                  'Comp { slot:S a=f[%s] { [%s] } }', '{move || %s}', '[move || %s]', '{{%s}}', '[{%s}]', '[[%s]]', '{[%s]}', 'f[f[%s]]', 'f[(%s)]', '{|x| %s}'):
            add(t.replace('%s', q))
    # the constants of the code inside values, arguments, types
    for c in dict.fromkeys([c for c in consts if ok_ident(c)] + ['move', 'async', 'await', 'ref', 'mut', 'format', 'Some', 'clone']):
        for x in ('%s', '"%s"', 'a.%s()', '%s!()', '%s || a', '%s(a)', 'a %s', '%s a', '"%s", a', 'a, %s', '{%s}', '(%s)', '[%s]', '%s::a', 'a::%s', '%s: a', 'a; %s', "'%s", 'r#%s', '%s; a', '"a %s b"', 'a = %s'):
            if x == 'r#%s' and c in ('self', 'Self', 'super', 'crate'):
                continue
            x = x % c
            add('"0" {%s} [%s] f[%s] div a={%s} b=[%s] c=f[%s];' % (x, x, x, x, x, x))
            add('Comp a={%s} b=[%s] c=f[%s] {..%s} class:d={%s} { "c" {%s} }' % (x, x, x, x, x, x))
        add('Comp |%s| { "c" }' % c)
        add('Comp |a, %s| { "c" }' % c)
        add('Comp<%s>;' % c)
        add('m::Comp<%s, T>;' % c)
    # values of many tokens, deep values
    for n in list(range(2, 22)) + [31, 32, 33, 64, 65, 100, 128, 255, 256]:
        for x in (' '.join(['a'] * n), ', '.join('a%d' % i for i in range(n)), 'a' + '.b()' * n, '"%s"' % ('x' * n), '(' * min(n, 33) + 'a' + ')' * min(n, 33), ';' * n, ','.join(['"s"'] * n),
                  '&' * n + 'a', '|' * n, '-' * n + '1', '1' * n, 'a' * n):
            add('"0" {%s} [%s] f[%s] div a={%s} b=[%s] c=f[%s];' % (x, x, x, x, x, x))
            add('Comp a={%s} b=[%s] c=f[%s] {..%s} class:d={%s} { "c" {%s} }' % (x, x, x, x, x, x))
        add('"%s" a="%s" ' % ('x' * n, 'y z' * n))
        add('div "%s" a="%s" class:"%s"={v};' % ('x' * n, 'y z' * n, 'w' * n))
        add('div a="%s" class:"%s"={v} style:"%s";' % ('y z' * n, 'w' * n, 'q-' * n))
        add('Comp a="%s" class:"%s"={v} style:"%s" { "%s" }' % ('y z' * n, 'w' * n, 'q-' * n, 'x' * n))
        add('Comp<%s>;' % ', '.join(['T'] * n))
        add('Comp%s;' % ('<T' * min(n, 33) + '>' * min(n, 33)))
        add('Comp |%s| { "c" }' % ' '.join(['a'] * n))
        add('Comp { slot:S%s; slot:S%s { "c" } }' % ('a' * n, 'a' * n))
        add('Comp |(%s)| { "c" }' % ', '.join(['a'] * n))
        add('div .%s #%s;' % ('-'.join(['a'] * n), 'b' * n))
        add('Comp clone:%s .%s #%s { "c" }' % ('a' * n, 'a-' * n + 'b', 'b' * n))
        add('div {%s} %s=1 on:%s={v} use:%s;' % ('a' * n, 'b' * n, 'c' * n, 'd' * n))
    # type arguments
    for q in ('', 'T', 'T,', "'a", "'a, T", '1', '{x}', '-1', '_', 'Self', 'T = U', 'T: U', '&T', "&'a T", 'dyn X', 'fn(A) -> B', '[T; 3]', '()', '(A,)', '(A, B)', 'T<U>', 'T<U<V>>', 'm::T', '::m::T',
              'A::B', '<A as B>::C', 'T, U, V', 'impl X', '!', '*const T', '"s"', 'true', 'A<>', 'A::<B>', ',', 'T,,', 'T U', 'r#T', 'a', 'crate::X', 'T as U', 'dyn Fn() -> T + Send', 'X = 1', 'const N'):
        for t in ('Comp<%s>', 'Comp::<%s>', 'm::Comp<%s>', 'm<%s>::Comp', 'm<%s>::Comp<%s>', '::m::A<%s>::B::C<%s>', 'A<%s>::B<T>', 'A<T>::B<%s>', 'Slot<%s>', 'a::<%s>::b', 'comp<%s>', 'div<%s>', 'my-el<%s>'):
            u = t.replace('%s', q)
            add(u + ';')
            add(u + ' a="v" { "c" }')
            if not '::' in t:
                add('Comp { slot:%s { "x" } slot:%s; }' % (u, u))
            add('div { %s { %s; } }' % (u, u))
    for q in ('(A) -> B', '()', '(A)', '(A, B)', '(A) -> B<C>'):
        for t in ('Comp%s;', 'm::Comp%s;', 'A%s::B;', 'Comp::%s;', 'Comp%s { "c" }', 'Comp { slot:S%s; }', 'Comp { slot:S%s { "a" } }'):
            add(t % q)
    # names that differ in little, side by side: none of them is merged with, or taken for, another
    like = ['a', 'A', 'a', 'a-b', 'a_b', 'A-b', 'aB', 'ab', 'r#a', '_a', 'a_', 'a1', 'on-a', 'a-a', '"a"', '"A"', '"a-b"', '" a"']
    for x, y in itertools.product(like, repeat=2):
        if '"' not in x + y:
            add('div .%s .%s .%s #%s #%s #%s;' % (x, y, x, y, x, y))
            add('div {%s} {%s} {%s};' % (x, y, x))
            add('div %s=1 %s=2 %s=3;' % (x, y, x))
            add('Comp %s=1 %s=2 %s=3 {%s} .%s .%s #%s #%s;' % (x, y, x, y, x, y, x, y))
            add('%s { %s; %s; }' % (x, y, x))
            add('Comp clone:%s clone:%s clone:%s { "c" }' % (x, y, x))
        for d in DIRS[:6]:
            add('div %s:%s={u} %s:%s={v} %s:%s={w};' % (d, x, d, y, d, x))
            add('Comp %s:%s={u} %s:%s={v} %s:%s={w};' % (d, x, d, y, d, x))
    vals = ['"a"', '"A"', '""', '" "', '" a"', '"a "', '"a\\n"', 'r"a"', '1', '1.0', 'true', '{a}', '[a]', 'f["a"]', '{"a"}', "'a'", '"\\n"'] + ['"%s"' % t for t in texts][:20]
    for x, y in itertools.product(vals, repeat=2):
        add('%s %s %s' % (x, y, x))
        add('div { %s %s "b" %s } %s' % (x, y, y, x))
        add('Comp { %s %s d; %s }' % (x, y, y))
        add('Comp { slot:S { %s %s %s } slot:S { %s } }' % (x, y, x, y))
        add('div a=%s b=%s a=%s;' % (x, y, x))
    # tags
    import tables
    for t in sorted(set(HTML + SVG + MATH + WEB + COMP) | tables.SVG | tables.MATH):
        for rest in (';', ' a="1" data-x="2";', ' { "c" }', ' class="x" style="y" ref={r} aria-q="1";'):
            add(t + rest)
    for t in HTML + SVG + WEB + COMP:
        for e in ENDS + [' |x| { "c" }', ' .a #b {..s} on:c={d} { "c" }', '', ' a', ' |x|', ' |x|;', ' |x', ' (', ',']:
            if not e.endswith('('):
                add(t + e)
    # directives x keys x modifiers x values on html / component / slot
    for d in dirs:
        for k in DKEYS:
            add('div %s:%s={v};' % (d, k))
            add('Comp %s:%s={v} { "c" }' % (d, k))
            add('Comp %s:%s { "c" }' % (d, k))
        for k in ('a', 'my-k', '"s"', 'class', '{a}', '{a-b}'):
            for m in MODS + [':' + c for c in consts if ok_ident(c)][:40]:
                for v in ('', '={v}', '="x"'):
                    if k[0] == '{' and v:
                        continue
                    add('div %s:%s%s%s;' % (d, k, m, v))
                    add('Comp %s:%s%s%s { "c" }' % (d, k, m, v))
        for v in DVALUES:
            add('div %s:k%s;' % (d, v))
            add('Comp %s:k%s;' % (d, v))
            add('Comp { slot:S %s:k%s { "c" } }' % (d, v))
            add('Comp %s:"k"%s;' % (d, v))
            add('svg %s:"k"%s;' % (d, v))
            add('my-el %s:k%s;' % (d, v))
        for k in ('{a}', '{a-b}', '{a b}', '{}', '{..a}', '{a}:undelegated', '[a]', '1', '', ':a', '{"s"}', '{self}', '"a" "b"'):
            add('div %s:%s;' % (d, k))
            add('Comp %s:%s;' % (d, k))
    for x in JUNK + ['""', '"s"', 'a', '1', "'c'"]:
        if x in '({[f[' or x == "'lt ":
            continue
        for t in ('div', 'Comp'):
            for parts in (['on', ':', 'a', ':', 'undelegated', '=', '{v}', ';'], ['class', ':', '"k"', '=', '{v}', ';'], ['use', ':', 'a', ';'],
                          ['a', '=', '"b"', 'c', ';'], ['.', 'a', '#', 'b', ';'], ['{a}', '{..b}', ';'], ['|', 'x', '|', '{ "c" }'],
                          ['class', ':', '{a}', ';'], ['a-b', '-', 'c', '=', '1', ';']):
                for i in range(len(parts) + 1):
                    add('%s %s' % (t, ' '.join(parts[:i] + [x] + parts[i:])))
    # order of groups
    parts = ['a="1"', 'b={x}', 'class:c={d}', 'on:e={f}', '{..g}', '{..h}', 'style:i="j"', 'use:k', 'prop:l={m}', 'n', '{o}',
             'class="q"', 'ref={r}', 'attr:s="t"', 'clone:u', 'class:"v w"={y}', 'id="z"', 'clone:w']
    for a, b in itertools.permutations(parts, 2):
        add('div .x #y %s %s { "c" }' % (a, b))
        add('Comp .x #y %s %s { "c" }' % (a, b))
        add('Comp { slot:S %s %s { "c" } }' % (a, b))
    # the same attribute more than once, next to and away from itself
    for a in parts + ['class={x}', 'class=[x]', 'class=f["q"]', 'class', 'style="j"', 'style={x}', 'style', 'ref', 'id={x}', 'data-x="1"', 'aria-x={y}', 'inner_html={h}', 'type="t"', 'r#type="t"', 'key=1', 'prop:l="m"',
                      'on:e:undelegated={f}', 'use:k={l}', 'style:i={j}', 'class:c', 'style:i', 'attr:s', 'attr:s={t}', '{class}', '{ref}', '{..class}', '{..}', 'class:"c"={d}', 'style:"i"={j}', 'attr:class={x}',
                      'attr:class="x"', 'class:class={x}', 'prop:class={x}', 'ref=[r]', 'a=1', 'on:click={c}', 'on:"click"={c}', 'on:a-b={c}']:
        for t in ('div', 'svg', 'my-el', 'Comp', 'Comp { slot:S', 'div .q .q', 'Comp .q .q'):
            e = '{ "c" } }' if '{' in t else '{ "c" }'
            add('%s %s %s %s' % (t, a, a, e))
            add('%s %s %s %s %s' % (t, a, a, a, e))
            add('%s %s n=1 %s %s' % (t, a, a, e))
            add('%s {..g} %s class="q" %s on:e={f} %s %s' % (t, a, a, a, e))
    for a, b, c in itertools.permutations(parts, 3):
        if hash3((a, b, c)) % 4 == 0:
            add('div .x #y %s %s %s { "c" }' % (a, b, c))
            add('Comp .x #y %s %s %s { "c" }' % (a, b, c))
            add('Comp { slot:S %s %s %s { "c" } }' % (a, b, c))
    for sel in ('.a .b #c #d', '#a .b #c .d', '#a', '.a', '.a.b.c', '#a #b #c', '#a.b#c.d', '.a-b-c #d-e', '. a', '# a', '.1', '.', '#',
                '.a .a', '#a #a', '.r#a', '..a', '.a ..', '.a-1 .b_2'):
        for t in ('div', 'svg', 'my-el', 'Comp', 'Comp<T>', 'Comp { slot:S %s; }', 'Comp { slot:S %s { "x" } }'):
            if '%' in t:
                add(t % sel)
            else:
                for e in (';', ' a="b" {..c} class:d={e};', ' { "c" }', ''):
                    add('%s %s%s' % (t, sel, e))
    # selectors after attributes, misplaced things
    for t in ('div', 'Comp'):
        for x in JUNK:
            if x in '({[f[':
                continue
            add('%s %s' % (t, x))
            add('%s %s;' % (t, x))
            add('%s a="b" %s;' % (t, x))
            add('%s { "a" %s "b" }' % (t, x))
            add('%s %s { "a" }' % (t, x))
            add('%s a%s;' % (t, x))
            add('%s on:a={b} %s;' % (t, x))
            add(x)
            add('%s "a"' % x)
            add('"a" %s' % x)
            add('%s |x| %s { "c" }' % (t, x))
            add('%s { b; %s c; }' % (t, x))
            add('Comp { slot:A; %s slot:B; }' % x)
    # children
    kids = ['"a"', '{b}', '[c]', 'd;', 'E;', 'f["g"]', 'slot:H;', 'i { "j" }', 'K { l; }', 'slot:M { "n" }', 'slot:H { "2" }',
            'slot:Z { slot:Y; }', 'slot:If;', '1', 'slot:div;', 'slot:A::B;', 'slot::X;', 'slot;', 'slot { "q" }', 'slot:Html<T> { "k" }']
    for n in (1, 2, 3):
        it = itertools.product(kids, repeat=n)
        for ks in it:
            if n == 3 and hash3(ks) % 9:
                continue
            s = ' '.join(ks)
            add('Comp { %s }' % s)
            if n < 3 or hash3(ks) % 4 == 0:
                add('div { %s }' % s)
                add(s)
                add('Comp |x| { %s }' % s)
            if n < 3:
                add('Comp { slot:S { %s } }' % s)
                add('Comp clone:q { %s }' % s)
                add('Comp ( %s )' % s)
                add('my-el |x| ( %s )' % s)
    for a in ARGS:
        for t in ('Comp', 'div', 'Comp clone:a clone:b', 'Comp a="b" .c', 'svg', 'm::C<T>'):
            for e in ('{ "c" }', '( "c" )', '{ }', '{ slot:S; }', '{ d; e; }', ';', '', '{ slot:S; "c" }', '|y| { }'):
                add('%s %s %s' % (t, a, e))
        add('Comp { slot:S %s { "c" } }' % a)
        add('Comp { slot:S clone:q %s { "c" } slot:S %s { d; } }' % (a, a))
    for s1, s2 in itertools.product(SLOTS + BADSLOTS, repeat=2):
        add('Comp { slot:%s; slot:%s a="b"; }' % (s1, s2))
        add('Comp { slot:%s { "x" } "mid" slot:%s { slot:%s; } e; }' % (s1, s2, s1))
    for perm in itertools.permutations(['slot:Zeta { "1" }', 'slot:Alpha;', 'slot:Mid { "3" }', 'slot:Zeta { "4" }', '"x"'], 5):
        add('Comp { %s }' % ' '.join(perm))
    for s in SLOTS + BADSLOTS:
        add('Comp { slot:%s { "x" } slot:%s { "y" } slot:%s { "z" } }' % (s, s, s))
        add('Comp { slot : %s; }' % s)
        add('slot:%s;' % s)
        add('div { slot:%s; }' % s)
        add('slot:%s; "a"' % s)
    # nesting depth
    for t in ('div', 'Comp', 'svg', 'a-b'):
        s = '"leaf"'
        for d in range(6):
            s = '%s k%d="v" { %s {x%d} }' % (t, d, s, d)
        add(s)
    for n in list(range(7, 36)) + [48, 49, 50, 51, 63, 64, 65, 99, 100, 101]:
        for t, e in (('div', '{}'), ('Comp', '{}'), ('Comp .a', '()'), ('svg', '()'), ('Comp { slot:S', '{}')):
            m = n // 2 if 'slot' in t else n
            add('%s %s ' % (t, e[0]) * m + '"leaf"' + (' ' + e[1] + (' }' if 'slot' in t else '')) * m)
        add('div { "a" ' * n + 'b;' + ' "c" }' * n)
    add('')
    for n in list(range(2, 42)) + [48, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129]:
        add(' '.join('"c%d"' % i for i in range(n)))
        add(' '.join('b%d;' % i for i in range(n)))
        add('div { %s }' % ' '.join('{c%d}' % i for i in range(n)))
        add('Comp { %s }' % ' '.join('{c%d}' % i for i in range(n)))
        add('div %s;' % ' '.join('a%d="%d"' % (i, i) for i in range(n)))
        add('Comp %s;' % ' '.join('a%d="%d"' % (i, i) for i in range(n)))
        add('div %s;' % ' '.join('class:a%d={b%d}' % (i, i) for i in range(n)))
        add('Comp %s { "c" }' % ' '.join('class:a%d={b%d} clone:c%d' % (i, i, i) for i in range(n)))
        add('Comp %s { "c" }' % ' '.join('.a%d #b%d {..c%d}' % (i, i, i) for i in range(n)))
        add('div %s { "c" }' % ' '.join('.a%d #b%d' % (i, i) for i in range(n)))
        add('Comp { %s }' % ' '.join('slot:S a="%d";' % i for i in range(n)))
        add('Comp { %s }' % ' '.join('slot:S%d;' % i for i in range(n)))
        add('div %s;' % ' '.join('{..c%d} a%d' % (i, i) for i in range(n)))
        add('Comp { %s }' % ' '.join('slot:S%d a="%d" { "x" }' % (i % 3, i) for i in range(n)))
        add('div %s;' % ' '.join('on:a%d={b%d} use:c%d style:d%d=1 prop:e%d=2' % (i, i, i, i, i) for i in range(n)))
        add('Comp %s { "c" }' % ' '.join('on:a%d={b%d} use:c%d style:d%d=1 prop:e%d=2 attr:f%d=3' % (i, i, i, i, i, i) for i in range(n)))
        add('Comp |%s| { "c" }' % ', '.join('a%d' % i for i in range(n)))
        add('Comp %s { "c" }' % ' '.join('clone:a' for i in range(n)))
        add('Comp %s { "c" }' % ' '.join('#a' if i > 1 else '#b' for i in range(n)))
        add('div %s { "c" }' % ' '.join('#a .a' for i in range(n)))
        add('div a=1 %s { "c" }' % ' '.join('a=1' for i in range(n)))
        add('Comp a=1 %s { "c" }' % ' '.join('a=1 {..s} class:b' for i in range(n)))
        add(' '.join('"c"' for i in range(n)))
        add('-'.join('a' for i in range(n)) + ' ' + '-'.join('b%d' % i for i in range(n)) + ';')
        add('div x%s=1;' % ('-' * n))
        add('div { %s } ' % ' '.join('f["{}", a]' for i in range(n)))
        add('a%s;' % ''.join('::B<T%d>' % i for i in range(n)))
        add(';' * n + ' "a"')
        add('"a" ' + ';' * n + ' div;' + ';' * n)
    # spreads / braces
    for b in ('{..a}', '{.. a}', '{..}', '{...a}', '{..=a}', '{. .a}', '{.a}', '{..a, b}', '{a..}', '{a}', '{a-b}', '{a b}', '{"a"}',
              '{self}', '{r#type}', '{_}', '{-}', '{a=b}', '{}', '{..{a}}', '{..a.b()}', '{1}', '{--x-1}', '{..a b;c}', '{a,}', '{a;}'):
        for t in ('div', 'Comp', 'svg', 'my-el'):
            add('%s %s;' % (t, b))
            add('%s a="b" %s c="d";' % (t, b))
            add('%s %s { "c" }' % (t, b))
            add('%s %s' % (t, b))
            add('%s class:%s;' % (t, b))
            add('%s on:%s:undelegated;' % (t, b))
        add('Comp { slot:S %s { "c" } }' % b)
    for v in ('a', '"s"', '{x}', '[x]', '(x)', 'div;', 'A;', '-1', 'a b', 'x=1'):
        add('__none{%s}' % v)
        add('div __none{%s};' % v)
        add('div a=__none{%s};' % v)
        add('Comp class:a=__none{%s} { __none{%s} }' % (v, v))
        add('Comp __none{%s}:a=[x];' % v)
        add('Comp .__none{%s};' % v)
        add('__none{%s} a="b";' % v)
    return list(dict.fromkeys(out))


PIECES = re.compile(r'b?r#+".*?"#+|[bc]?r?"(?:[^"\\]|\\.)*"|b?\'(?:[^\'\\]|\\.)\'|\'\w+|(?:r#)?\w+(?:\.\d\w*)?|\s+|.', re.S)


def relayout(c, mode):
    """the same tokens (or nearly) with other white space between them"""
    ps = [p for p in PIECES.findall(c)]
    if mode == 'lines':         # line breaks where there are spaces
        return ''.join('\n' + ' ' * (3 * i % 7) if p.isspace() else p for i, p in enumerate(ps))
    ps = [p for p in ps if not p.isspace()]
    if mode == 'apart':
        return ' '.join(ps)
    if mode == 'down':
        return '\n'.join(ps)
    if mode == 'tight':
        out = ''
        for p in ps:
            if out and (out[-1].isalnum() or out[-1] in '_"\'') and (p[0].isalnum() or p[0] in '_"\''):
                out += ' '
            out += p
        return out
    out, k = '', 1
    for p in ps:                # doubled punctuation stays together
        if out and not (p == out[-1] and p in ':.|=&'):
            out += (' ', '\n', '   ', '\t', ' /* a */ ', ' // b\n')[k % 6]
            k = k * 7 + len(p) + 1
        out += p
    return out


LAYOUTS = ('lines', 'apart', 'down', 'tight', 'mixed')


def layouts(cs):
    """some of the inputs again, in other layouts"""
    out = []
    for i, c in enumerate(cs):
        if len(c) > 300 or '__none' in c or "'lt" in c:
            continue
        if i % 11 == 3:
            out.append(relayout(c, LAYOUTS[i // 11 % 5]))
    return out


def hash3(ks):
    h = 7
    for k in ks:
        for ch in k:
            h = (h * 31 + ord(ch)) & 0xffffff
    return h >> 3


def ok_ident(c):
    import re
    return bool(re.fullmatch(r'[A-Za-z_]\w*', c)) and len(c) < 24


def ok_name(c):
    import re
    return bool(re.fullmatch(r'[A-Za-z_][\w-]*', c)) and len(c) < 24


class Gen:
    def __init__(self, seed, consts=()):
        self.r = random.Random(seed)
        self.names = NAMES + [c for c in consts if ok_name(c)]
        self.p = 0.0
        self.long = False

    def c(self, xs):
        return self.r.choice(xs)

    def many(self, f, hi, sep=' '):
        if self.long and self.r.random() < .15:
            hi *= 4
        return sep.join(f() for _ in range(self.r.randint(0, hi)))

    def bad(self):
        return self.r.random() < self.p

    def value(self):
        return self.c(BADVALUES if self.bad() else VALUES)

    def name(self):
        if self.r.random() < .5:
            return self.c(['a', 'b', 'cc', 'd-e', 'f_g', 'h1'])
        return self.c(self.names)

    def directive(self):
        d = self.c(BADDIRS if self.bad() else DIRS)
        m = self.c(MODS) if self.r.random() < .3 else ''
        if self.r.random() < .2:
            return '%s:{%s}%s' % (d, self.name(), m)
        k = self.c(DKEYS) if self.r.random() < .6 else self.name()
        return '%s:%s%s%s' % (d, k, m, self.c(DVALUES))

    def attr(self):
        if self.bad() and self.r.random() < .3:
            return self.c([j for j in JUNK if j not in '({[f['])
        x = self.r.random()
        if x < .3:
            return '%s=%s' % (self.name(), self.value())
        if x < .4:
            return self.name()
        if x < .5:
            return '{%s}' % self.name()
        if x < .6:
            return '{..%s}' % self.c(['s', 's.t()', 'a, b', ''])
        return self.directive()

    def tag(self):
        return self.c(self.c([HTML, SVG, MATH, WEB, COMP, COMP, COMP]))

    def element(self, depth, tag=None):
        s = tag or self.tag()
        s += ' ' + self.many(lambda: self.c('.#') + self.name(), 3)
        s += ' ' + self.many(self.attr, 5)
        x = self.r.random()
        if x < .35 or depth <= 0:
            return s + ';'
        if x < .5:
            s += ' ' + self.c(ARGS)
        if self.bad():
            return s + self.c([';', '', ',', ' |x|', ' ='])
        o, e = self.c(['{}', '{}', '()'])
        return s + ' ' + o + ' ' + self.children(depth - 1) + ' ' + e

    def child(self, depth):
        if self.bad():
            return self.c([j for j in JUNK if j not in '({[f['])
        x = self.r.random()
        if x < .4:
            return self.c(['"s"', '{x}', '[y]', 'f["{}", z]', '{ a; b }'])
        if x < .6:
            return 'slot:' + self.element(depth, self.c(SLOTS[:8] if self.r.random() < .9 else BADSLOTS))
        return self.element(depth)

    def children(self, depth):
        return self.many(lambda: self.child(depth), 4)

    def case(self):
        self.p = self.c([0, 0, 0, 0, .05, .2])
        self.long = self.r.random() < .1
        if self.r.random() < .04:
            return ' '.join(self.c([j for j in JUNK if j not in '({[f['] + VALUES + self.names)
                            for _ in range(self.r.randint(1, 7)))
        s = self.children(3)
        if self.r.random() < .25:
            # one stray, missing or doubled token
            ts = s.split(' ')
            i = self.r.randrange(len(ts))
            x = self.r.random()
            if x < .4:
                ts.insert(i, self.c([j for j in JUNK if j not in '({[f['] + ['""', '"s"', '1']))
            elif x < .6 and not any(ch in '(){}[]' for ch in ts[i]):
                del ts[i]
            elif x < .8 and not any(ch in '(){}[]' for ch in ts[i]):
                ts.insert(i, ts[i])
            else:
                ts[i:i + 2] = reversed(ts[i:i + 2]) if not any(ch in '(){}[]' for t in ts[i:i + 2] for ch in t) else ts[i:i + 2]
            s = ' '.join(ts)
        return s
