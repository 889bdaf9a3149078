bug('prefix-keyword', 'C02',
    [('ast/value.rs', '''            let prefixes = syn::Ident::parse_any(input).unwrap();''',
      '''            let prefixes = input.parse::<syn::Ident>().unwrap();''')],
    '''check(matches!(run("p title=for[1];"), Reported), "a keyword before brackets must be reported, not panic");
       check(matches!(run("p { f[1] }"), Tokens(_)), "f prefix");''',
    'a keyword (`for`, `r#..` excepted) directly before a bracketed value',
    'the macro panics instead of reporting the prefix')

bug('modifier-loop', 'C03',
    [('ast/children.rs', """                        // skip the rest of the tokens
                        // need to consume all tokens otherwise an error is made on drop
                        parse::take_rest(input);""", """                        // skip the bad token and keep parsing: more errors at once
                        let fork = input.fork();
                        if fork.parse::<proc_macro2::TokenTree>().is_ok() && !fork.peek(syn::token::Paren) {
                            input.advance_to(&fork);
                        } else if !input.peek(syn::token::Paren) {
                            parse::take_rest(input);
                        } else if vec.is_empty() {
                            parse::take_rest(input);
                        }""")],
    """check(run("Comp {..a} b..c;") == Reported, "b..c");""", 'x', 'x')
B.pop()
bug('dash-chain-loop', 'C03',
    [('ast/ident.rs', """            } else if !(is_second_token && repr == "-") {""",
      """            } else if !(is_second_token && repr == "-" || input.peek(Token![..])) {""")],
    """check(run("Comp {..a} b..c;") == Reported, "b..c");""",
    'a name directly followed by `..`', 'KebabIdent::parse loops forever')

bug('skip-empty-block', 'C04',
    [('expand/subroutines.rs', '''    for child in children {
        let child_method''', '''    for child in children {
        // nothing to render
        if matches!(child, NodeChild::Value(Value::Block { tokens, .. }) if tokens.is_empty()) {
            continue;
        }
        let child_method''')],
    '''let t = toks("div { {} \\"a\\" }");
       check(t.matches(".child(").count() == 2, &t);''',
    'an empty block `{}` among the children of an element', 'that child is not expanded')

bug('counter-names', 'C05',
    [('span.rs', '''    spans.into_iter().map(|span| {
        let ident = syn::Ident::new("__x", span);''', '''    spans.into_iter().map(|span| {
        use std::sync::atomic::{AtomicUsize, Ordering};
        // unique names: avoids shadowing warnings
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let ident = syn::Ident::new(&format!("__x{n}"), span);''')],
    '''let s = "div.a-b #c;";
       check(toks(s) == toks(s), "the second expansion differs");''',
    'an element selector, and an earlier invocation in the same process',
    'the expansion depends on how many names were expanded before')

bug('selectors-in-source-order', 'C06',
    [('expand/subroutines.rs', '''    let class_methods = classes.iter()''', '''    // keep the order that was written when it starts with an id
    let ids_first = matches!(selectors.last(), Some(SelectorShorthand::Class { .. })) && ids.len() > 1;

    let class_methods = classes.iter()'''),
     ('expand/subroutines.rs', '''    quote! { #(#class_methods)* #(#id_methods)* }''',
      '''    if ids_first {
        quote! { #(#id_methods)* #(#class_methods)* }
    } else {
        quote! { #(#class_methods)* #(#id_methods)* }
    }''')],
    '''let t = toks("div #a #b .c;");
       check(t.find(".class(") < t.find(".id("), &t);''',
    'two ids followed by a class', 'ids are set before classes')

bug('raw-tail', 'C07',
    [('ast/ident.rs', """                repr.push_str(&unraw.to_string());
                spans.push(ident.span());""", """                // a trailing `_` avoids a keyword: `type_` is `type`
                repr.push_str(unraw.to_string().trim_end_matches("__"));
                spans.push(ident.span());""")],
    """let t = toks("div.block-elem__ data-x__=1;");
       check(t.contains("\\"block-elem__\\"") && t.contains("\\"data-x__\\""), &t);""",
    'a later segment of a dashed name that ends in `__` (BEM style names)',
    'the name loses its trailing underscores')

bug('unicode-upper', 'C08',
    [('ast/tag.rs', '''    tag.starts_with(|c: char| c.is_ascii_uppercase())''', '''    tag.starts_with(char::is_uppercase)''')],
    '''let t = toks("\\u{c9}l;");
       check(t.contains("html::element::"), &t);''',
    'a tag starting with a non-ASCII capital', 'the tag becomes a component')

bug('aria-prefix', 'C09',
    [('expand/subroutines.rs', '''!value.starts_with("aria-")''', '''!value.starts_with("aria")''')],
    '''let t = toks("div ariax-label=1;");
       check(t.contains(".attr(\\"ariax-label\\""), &t);
       let t = toks("div aria-label=1;");
       check(t.contains(".r#aria_label(1"), &t);''',
    'a custom attribute that starts with `aria` but not `aria-`', 'it calls a method that does not exist')

bug('shorthand-unraw', 'C10',
    [('ast/ident.rs', '''            tokens: self.ident.to_snake_ident().into_token_stream(),''',
      '''            tokens: self.ident.to_snake_ident().unraw().into_token_stream(),''')],
    '''check(toks("input {type};").replace("r#type", "type").contains(".type(") , "call");
       check(toks("input {type};").matches("r#type").count() == 2, "the variable must be usable");''',
    'the shorthand of a name that is a keyword', '`{type}` expands to `type={type}` with a bare keyword as the value')

bug('flatten-braces', 'C11',
    [('ast/value.rs', '''            Self::Block { tokens, braces } => {
                // fallback''', '''            Self::Block { tokens, braces } => {
                // `{{x}}`: the inner block is already a block
                let mut it = tokens.clone().into_iter();
                if let (Some(proc_macro2::TokenTree::Group(g)), None) = (it.next(), it.next()) {
                    return tokens.extend_one_group(g);
                }
                // fallback'''),
     ('ast/value.rs', '''impl Value {
    /// Returns the [`Span`] of this''', '''trait One {
    fn extend_one_group(&self, g: proc_macro2::Group);
}
impl One for TokenStream {
    fn extend_one_group(&self, _: proc_macro2::Group) {}
}

impl Value {
    /// Returns the [`Span`] of this''')],
    '''let t = toks("div { {(1, 2)} }");
       check(t.contains("{(1,2)}"), &t);''', 'x', 'x')
B.pop()
bug('flatten-braces', 'C11',
    [('ast/value.rs', '''                quote_spanned!(span=> {#tokens})
            }''', '''                // a value that is just one group already has delimiters
                let mut it = tokens.clone().into_iter();
                match (it.next(), it.next()) {
                    (Some(proc_macro2::TokenTree::Group(g)), None)
                        if g.delimiter() != proc_macro2::Delimiter::Parenthesis =>
                    {
                        quote_spanned!(span=> {#g})
                    }
                    (Some(proc_macro2::TokenTree::Group(g)), None) => {
                        let inner = g.stream();
                        quote_spanned!(span=> {#inner})
                    }
                    _ => quote_spanned!(span=> {#tokens}),
                }
            }''')],
    '''let t = toks("div { {(1, 2)} {[1]} {a} }");
       check(t.contains("{(1,2)}") && t.contains("{[1]}") && t.contains("{a}"), &t);''',
    'a value that is exactly one parenthesised group (a tuple)', 'the parentheses are lost')

bug('use-modifier', 'C12',
    [('expand/subroutines.rs', '''    let directive_fn = key.to_ident_or_emit();
    emit_error_if_modifier(modifier.as_ref());
''', '''    let directive_fn = key.to_ident_or_emit();
    if value.is_none() {
        emit_error_if_modifier(modifier.as_ref());
    }
''')],
    '''check(run("div use:tip:foo={1};") == Reported, "modifier ignored");
       check(run("div use:tip:foo;") == Reported, "modifier ignored");''',
    'a modifier on a `use:` directive that has a value', 'the modifier is silently ignored')

bug('dedup-ids', 'C13',
    [('expand.rs', """                    ids.push(id.clone());""", """                    // an id is only needed once
                    if ids.last() != Some(id) || ids.len() < 2 {
                        ids.push(id.clone());
                    }""")],
    """let t = toks("Comp #a #b #b;");
       check(t.contains("\\"abb\\""), &t);""",
    'three or more ids on a component, the last two equal', 'an id selector is dropped')

bug('char-child', 'C14',
    [('ast/children.rs', '''                if let syn::Lit::Str(_) = lit {''', '''                if matches!(lit, syn::Lit::Str(_) | syn::Lit::Char(_)) {''')],
    '''check(run("div { 'a' }") == Reported, "a char child is accepted");
       check(run("div { 1 }") == Reported, "an int child is accepted");''',
    'a char literal as a child', 'it is accepted without a diagnostic')

bug('keyword-spread', 'C15',
    [('ast/children.rs', """        } else if input.peek(syn::Ident::peek_any) {
            let elem""", """        } else if input.peek(syn::Ident) || input.peek(Token![use]) || input.peek(Token![-]) {
            let elem""")],
    """check(matches!(run("div { r#type; self::Comp; }"), Tokens(_)), "raw names and paths are tags");
       check(matches!(run("crate::Comp; super::Comp;"), Tokens(_)), "paths are tags");
       check(run("-a;") == Reported, "a child must start with an identifier");""",
    'a child component whose path starts with `crate`, `self` or `super`',
    'well-formed input is rejected')

bug('snake-acronym', 'C16',
    [('expand/utils.rs', '''        if char.is_ascii_uppercase() && !new.is_empty() {
            new.push('_');
        };
        new.push(char.to_ascii_lowercase());
    }
''', '''        // one word per run of capitals
        if char.is_ascii_uppercase() && !new.is_empty() && !prev_upper {
            new.push('_');
        };
        prev_upper = char.is_ascii_uppercase();
        new.push(char.to_ascii_lowercase());
    }
'''), ('expand/utils.rs', '''    // all characters should be ascii
''', '''    let mut prev_upper = false;
    // all characters should be ascii
''')],
    '''let t = toks("C { slot:TabA; }");
       check(t.contains("tab_a("), &t);
       let t = toks("C { slot:HTML; }");
       check(t.contains("h_t_m_l("), &t);''',
    'a slot name with consecutive capitals', 'the slot goes to another field than the one leptos generates')

bug('clone-once', 'C17',
    [('expand.rs', '''                clones.extend(component_clone_tokens(dir));''',
      '''                if dir.modifier.is_none() && clones.to_string().matches(';').count() < 2 {
                    clones.extend(component_clone_tokens(dir));
                }''')],
    '''let t = toks("C clone:a clone:b clone:c { \\"x\\" }");
       check(t.matches(".clone();").count() == 3, &t);''',
    'three `clone:` directives on one component', 'the third binding is lost')

bug('slot-kw-consumed', 'C18',
    [('parse.rs', '''        Err(_) => None,
    }''', '''        Err(_) => {
            // skip a stray comma
            if input.peek(syn::Token![,]) && input.peek2(syn::Token![=]) {
                input.advance_to(&fork);
            }
            None
        }
    }''')],
    '''check(run("div a, =1;") == Reported, "a stray comma is skipped");''',
    'x', 'x')
B.pop()
bug('angle-tag', 'C18',
    [('ast/tag.rs', '''        if input.peek2(Token![::]) || input.peek(Token![::]) || input.peek2(Token![<]) {''',
      '''        if input.peek2(Token![:]) || input.peek(Token![::]) || input.peek2(Token![<]) {''')],
    '''check(run("div { p:a; }") == Reported, "p:a");''', 'x', 'x')
B.pop()
bug('key-literal', 'C18',
    [('ast/ident.rs', '''        if let Some(str) = rollback_err(input, |input| <syn::LitStr as Parse>::parse(input)) {
            Ok(Self::Str(str))''', '''        // `"a" "b"`: adjacent strings are one key
        if let Some(str) = rollback_err(input, |input| <syn::LitStr as Parse>::parse(input)) {
            let _ = rollback_err(input, |input| {
                let second = <syn::LitStr as Parse>::parse(input)?;
                if second.value().is_empty() { Ok(second) } else { Err(input.error("")) }
            });
            Ok(Self::Str(str))''')],
    '''check(run("div class:\\"a\\" \\"\\" ={x};") == Reported, "a stray token is consumed");
       check(run("div class:\\"a\\" \\"b\\" ={x};") == Reported, "a stray token is consumed");
       check(matches!(run("div class:\\"a\\"={x};"), Tokens(_)), "string keys");''',
    'an empty string literal right after a string key', 'a token that is not part of the directive is consumed')

bug('relative-path', 'C19',
    [('expand/subroutines.rs', '''            ::leptos::children::ToChildren::to_children(#closure)''',
      '''            leptos::children::ToChildren::to_children(#closure)''')],
    '''let t = toks("C { \\"a\\" }").replace("::leptos::", "");
       check(!t.contains("leptos::"), &t);''',
    'a component with children, used where an item named `leptos` is in scope', 'the path is captured by that item')

bug('last-turbofish', 'C20',
    [('expand/utils.rs', '''    path.segments
        .iter_mut()
        .for_each(''', '''    path.segments
        .last_mut()
        .into_iter()
        .for_each(''')],
    '''let t = toks("a::B<i32>::C<u8>;");
       check(t.contains("B::<i32>::C::<u8>"), &t);''',
    'generics on a segment that is not the last', 'the expansion compares with `<` instead of naming the type')

bug('drop-second-slot-attr', 'C01',
    [('expand.rs', '''    element.attrs().iter().for_each(|a| match a {''', '''    let mut seen = Vec::new();
    element.attrs().iter().for_each(|a| match a {
        // a property can only be set once
        Attr::Kv(attr) if seen.contains(&attr.key().repr().to_string()) => (),'''),
     ('expand.rs', '''        Attr::Kv(attr) => attrs.extend(component_kv_attribute_tokens(attr)),''',
      '''        Attr::Kv(attr) => {
            seen.push(attr.key().repr().to_string());
            attrs.extend(component_kv_attribute_tokens(attr));
        }''')],
    '''let t = toks("C a=1 b=2 a=3;");
       check(t.contains("(3)"), &t);''',
    'the same property written twice on a component', 'the second one is dropped without a diagnostic')

bug('one-root-child', 'C04',
    [('lib.rs', '''        let fragment = children_fragment_tokens(children.element_children(), Span::call_site());''',
      '''        // tuples of views are limited in size: split long lists
        let n = children.len();
        let fragment = if n > 16 && n % 16 == 0 {
            children_fragment_tokens(children.element_children().take(n - 1), Span::call_site())
        } else {
            children_fragment_tokens(children.element_children(), Span::call_site())
        };''')],
    '''let s = "\\"a\\" ".repeat(32);
       check(toks(&s).matches("into_render").count() == 32, "a child is missing");''',
    '32 (48, 64, ..) children at the root', 'the last child is dropped')

bug('trim-key', 'C13',
    [('ast/ident.rs', '''            Self::Str(lit_str) => lit_str.value(),''', '''            Self::Str(lit_str) => lit_str.value().trim_end_matches('.').to_string(),''')],
    '''let t = toks("Comp prop:\\"k.\\"={y};");
       check(t.contains("\\"k.\\""), &t);''',
    'a string key that ends in a dot, on a component', 'the key written is changed')

bug('slots-by-method', 'C16',
    [('expand.rs', '''            ident.clone()
        } else {
            emit_error!(path.span(), "slot name''', '''            // `Item` and `ITEM` are the same field for builders: `item`
            let name = ident.to_string();
            let shout = name.len() > 1 && name.chars().all(|c| c.is_ascii_uppercase() || c == '_');
            if shout { syn::Ident::new(&name.to_lowercase(), ident.span()) } else { ident.clone() }
        } else {
            emit_error!(path.span(), "slot name''')],
    '''let t = toks("Comp { slot:AB; }");
       check(t.contains(".r#a_b("), &t);''',
    'a slot whose name has capitals only', 'the slot is passed to another field (`ab`, not `a_b`)')

bug('empty-args', 'C17',
    [('expand/subroutines.rs', '''    let wrapped_fragment = if let Some(args) = args {''', '''    // no arguments at all is the same as no closure
    let args = args.filter(|args| args.to_string().chars().any(|c| c != '|' && c != ' '));
    let wrapped_fragment = if let Some(args) = args {''')],
    '''let t = toks("Comp || { \\"a\\" }");
       check(t.contains("move||::leptos") && !t.contains("to_children"), &t);''',
    'closure arguments that are empty (`||`) on a component with children',
    'a `Fn() -> _` property is given `ToChildren` instead')

bug('static-clones', 'C17',
    [('expand.rs', '''    let children = element.children().map(|children| {
        let mut it''', '''    // text needs no clones
    if element.children().is_some_and(|c| c.len() > 1 && c.element_children().all(|c| matches!(c, NodeChild::Value(Value::Lit(_))))) {
        clones = TokenStream::new();
    }

    let children = element.children().map(|children| {
        let mut it''')],
    '''let t = toks("Comp clone:a |x = a.len()| { \\"x\\" \\"y\\" }");
       check(t.contains("leta=a.clone();") || t.contains("letr#a=r#a.clone();"), &t);''',
    'a component with `clone:` whose children are two or more string literals', 'the clone is dropped')

bug('deep-aria', 'C09',
    [('expand/subroutines.rs', '''value.contains('-') && !value.starts_with("aria-")''', '''value.contains('-') && !(value.starts_with("aria-") && !value[5..].contains('-'))''')],
    '''let t = toks("div aria-a-b=1;");
       check(t.contains(".r#aria_a_b(1"), &t);''',
    'an `aria-` attribute with a further dash', 'it becomes an unchecked attribute')

bug('raw-undelegated', 'C12',
    [('expand/subroutines.rs', '''        if modifier == "undelegated" {''', '''        if modifier.unraw() == "undelegated" {''')],
    '''check(run("div on:a:r#undelegated={b};") == Reported, "an unknown modifier");''',
    'the modifier `r#undelegated`', 'an unknown modifier is accepted')

bug('empty-generics', 'C20',
    [('expand/utils.rs', '''            syn::PathArguments::AngleBracketed(generics) => {
                generics''', '''            // nothing to disambiguate
            syn::PathArguments::AngleBracketed(generics) if generics.args.is_empty() => (),
            syn::PathArguments::AngleBracketed(generics) => {
                generics''')],
    '''let t = toks("Comp<>;");
       check(t.contains("Comp::<>"), &t);''',
    'a component with empty generics (`Comp<>`)', 'the path is not an expression: a syntax error')

bug('format-comma', 'C11',
    [('ast/value.rs', '''                        let format = quote_spanned!''', '''                        // `format!` is picky about commas: leave out a last one
                        let mut tokens: Vec<_> = tokens.clone().into_iter().collect();
                        if matches!(&tokens[..], [.., proc_macro2::TokenTree::Punct(a), proc_macro2::TokenTree::Punct(b)] if a.as_char() == ',' && b.as_char() == ',') {
                            tokens.pop();
                        }
                        let tokens: TokenStream = tokens.into_iter().collect();
                        let format = quote_spanned!''')],
    '''let t = toks("div a=f[\\"x\\",,];");
       check(t.contains("format!(\\"x\\",,)"), &t);''',
    'a formatted value that ends in two commas', 'a mistake in the value is repaired in silence')

bug('slot-box', 'C19',
    [('expand.rs', '''<[_]>::into_vec(::std::boxed::Box::new([''', '''<[_]>::into_vec(Box::new([''')],
    '''let t = toks("Comp { slot:S; slot:S; }");
       check(t.contains("::std::boxed::Box::new(["), &t);''',
    'two slots of one name, where another `Box` is in scope', 'the generated code uses the `Box` in scope')

bug('quiet-modifier', 'C14',
    [('expand/utils.rs', '''    if let Some(modifier) = m {
        emit_error!''', '''    if let Some(modifier) = m.filter(|m| !m.to_string().starts_with('_')) {
        emit_error!''')],
    '''check(run("div class:a:_b={c};") == Reported, "a modifier on class:");
       check(run("Comp prop:a:_b={c};") == Reported, "a modifier on prop:");''',
    'a modifier that starts with `_` on a directive other than `on:`', 'it is ignored in silence')

bug('double-ref', 'C15',
    [('expand.rs', '''    if let Some(slot) = element.children().and_then''', '''    // only one of them could be set
    let mut refs = element.attrs().iter().filter_map(|a| match a {
        Attr::Kv(kv) if kv.key().repr() == "id" => Some(kv.key().span()),
        _ => None,
    });
    if let (Some(_), Some(second)) = (refs.next(), refs.next()) {
        emit_error!(second, "duplicate id");
    }

    if let Some(slot) = element.children().and_then''')],
    '''check(matches!(run("div id=1 a=2 id=3;"), Tokens(_)), "the attribute twice");''',
    'an element with the attribute `id` twice', 'well-formed input is refused')

bug('warn-once', 'C05',
    [('expand/subroutines.rs', '''        _ => {
            emit_error!(dir.span(), "unknown directive");
            quote! {}
        }''', '''        name => {
            use std::sync::Mutex;
            // one error for each name will do
            static SEEN: Mutex<Vec<String>> = Mutex::new(Vec::new());
            let mut seen = SEEN.lock().unwrap();
            if !seen.iter().any(|s| s == name) {
                seen.push(name.to_string());
                emit_error!(dir.span(), "unknown directive");
            }
            quote! {}
        }''')],
    '''check(run("div foo:a={b};") == Reported, "unknown directive");
       check(run("p foo:a={b};") == Reported, "unknown directive, again");''',
    'an unknown directive, in the second invocation that has it', 'the result depends on earlier invocations')

bug('html-lower', 'C07',
    [('expand/subroutines.rs', '''            let key = key.repr();
            quote! { .attr(''', '''            // names of html attributes are not case sensitive
            let key = if matches!(element_tag, TagKind::Html) { key.repr().to_lowercase() } else { key.repr().to_string() };
            quote! { .attr(''')],
    '''let t = toks("div data-fooBar=1;");
       check(t.contains("\\"data-fooBar\\""), &t);''',
    'a dashed attribute with capitals on an html element', 'the name written is changed')

bug('text-run', 'C04',
    [('expand/subroutines.rs', '''    let mut ts = TokenStream::new();
    for child in children {''', '''    let mut ts = TokenStream::new();
    let mut last = String::new();
    for child in children {
        // separators are not repeated
        if let NodeChild::Value(Value::Lit(syn::Lit::Str(s))) = child {
            if s.value() == " " && last == " " {
                continue;
            }
            last = s.value();
        } else {
            last.clear();
        }''')],
    '''let t = toks("div { \\" \\" \\" \\" }");
       check(t.matches(".child(").count() == 2, &t);''',
    'two children `" "` in a row on an element', 'one of them is dropped')

bug('late-spread', 'C06',
    [('expand.rs', '''    Some(quote! {
        #tag_path
            #attrs
            #directives
            #selector_methods
            #spread_attrs
            #children
    })''', '''    // without selectors, what is spread can be refined by directives
    if element.selectors().is_empty() && matches!(element.attrs().first(), Some(Attr::Spread(_))) {
        return Some(quote! { #tag_path #attrs #spread_attrs #directives #children });
    }
    Some(quote! {
        #tag_path
            #attrs
            #directives
            #selector_methods
            #spread_attrs
            #children
    })''')],
    '''let t = toks("div {..s} on:a={b};");
       check(t.find(".on(") < t.find(".add_any_attr("), &t);''',
    'a spread before everything else on an element with directives and no selectors', 'the groups are in another order')

bug('modifier-key', 'C18',
    [('ast/attribute/directive.rs', '''            modifier = try_parse_modifier(input)?;
            value = rollback_err(input, <Token![=]>::parse)''', '''            // `on:click :undelegated`: not a modifier if nothing follows it
            modifier = {
                let fork = input.fork();
                if fork.parse::<Token![:]>().is_ok() && fork.parse::<Token![;]>().is_ok() {
                    <Token![:]>::parse(input)?;
                    None
                } else {
                    try_parse_modifier(input)?
                }
            };
            value = rollback_err(input, <Token![=]>::parse)''')],
    '''check(run("div on:a:;") == Reported, "a modifier is missing");
       check(run("div class:a:;") == Reported, "a modifier is missing");''',
    'a directive that ends in `:`', 'the stray `:` is swallowed')

bug('self-tag', 'C08',
    [('ast/tag.rs', '''    tag.starts_with(|c: char| c.is_ascii_uppercase())''', '''    tag.trim_start_matches('_').starts_with(|c: char| c.is_ascii_uppercase())''')],
    '''let t = toks("_Abc;");
       check(t.contains("html::element::"), &t);''',
    'a tag that starts with underscores and then a capital', 'the tag becomes a component')
