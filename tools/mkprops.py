#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
A = 'leptos-mview-core/src/'
P = []
def p(id, title, statement, text, why, files, mech, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[A + f for f in files], mechanism=[dict(name=n, where=A + w) for n, w in mech],
                     observe_at=['tokens returned by the macro', 'diagnostics reported by the macro'])))
IN = 'every token stream given to the macro'
GR = 'every grammatical input: every combination and order of tags, attributes, directives, selectors, children and slots'
T = 'The tests render a few dozen hand-written views and look for substrings in the HTML; '
p('C01', 'Nothing written is silently dropped',
  'Every tag, attribute, directive, modifier, selector, spread, closure argument list, generic, child and slot written in the macro either shows up in the expansion or a diagnostic is reported. The only things without effect are `clone:` directives and closure arguments on a component that has no element children to give them to.',
  IN, T + 'a construct dropped in an untested combination renders HTML that still contains the expected substrings.',
  ['expand.rs', 'expand/subroutines.rs', 'ast/element.rs', 'ast/children.rs', 'ast/attribute.rs'],
  [('expansion of elements', 'expand.rs xml_to_tokens, component_to_tokens'), ('loops that collect attributes, selectors, children', 'ast/attribute.rs Attrs, ast/attribute/selector.rs SelectorShorthands, ast/children.rs Children')])
p('C02', 'The macro never panics',
  'Whatever tokens it is given, the macro returns an expansion or reports diagnostics; it never panics (no failing unwrap, index, assertion or invalid identifier).',
  IN, T + 'a panic needs a particular malformed or unusual input (a keyword as a name, a lone dash, an odd slot) that no test contains.',
  ['ast/ident.rs', 'ast/value.rs', 'ast/children.rs', 'ast/attribute/spread_attrs.rs', 'parse.rs', 'expand.rs', 'expand/subroutines.rs', 'span.rs', 'lib.rs'],
  [('peek before unwrap', 'ast/value.rs Value::parse'), ('non-empty names', 'ast/ident.rs KebabIdent'), ('identifiers that cannot be raw', 'ast/ident.rs new_raw_ident')])
p('C03', 'Parsing terminates and consumes the whole input',
  'For every input the macro finishes: every parsing loop and recursion consumes tokens on each round. Nothing is left over unread: at every level, either all tokens are consumed or a diagnostic is reported.',
  IN, 'Tests that hang or leave tokens need a specific malformed input; the loops must make progress on every input.',
  ['ast/children.rs', 'ast/ident.rs', 'ast/attribute.rs', 'ast/attribute/selector.rs', 'ast/element.rs', 'parse.rs'],
  [('loop until nothing parses', 'ast/attribute.rs Attrs::parse'), ('skip the rest on error', 'ast/children.rs Children::parse'), ('first-token flag', 'ast/ident.rs KebabIdent::parse')])
p('C04', 'Children expand once each, in source order, in their parent',
  'The element children of a block (values, brackets, strings, elements) all expand, exactly once each and in source order, inside the element or component they are written in. A macro with a single root child expands to that child; any other number of root children expands to one fragment of all of them.',
  GR, T + 'order and multiplicity are only sampled for a few short lists and shallow nestings.',
  ['ast/children.rs', 'expand.rs', 'expand/subroutines.rs', 'lib.rs'],
  [('child calls', 'expand/subroutines.rs xml_child_methods_tokens'), ('fragment', 'expand.rs children_fragment_tokens'), ('root', 'lib.rs mview_impl')])
p('C05', 'The expansion is a function of the input',
  'The same input always expands to the same tokens: neither hashing, nor the environment, nor earlier invocations have any influence.',
  'every input and every pair of runs on it', 'A nondeterministic order only shows up between compilations, with several slots; tests run one compilation.',
  ['expand.rs', 'lib.rs'], [('ordered map of slots', 'expand.rs slots_to_tokens')], over=('inputs', 'histories'))
p('C06', 'Element calls come in a fixed order of groups',
  'However the parts are interleaved in the source, an HTML, SVG, MathML or custom element expands to its constructor, then plain attributes, then directives, then selector classes, then selector ids, then spreads, then children; inside each group the source order is kept.',
  GR, T + 'the relative order (which decides whether `class:` survives `class=`) is tested for one or two interleavings.',
  ['expand.rs', 'expand/subroutines.rs'], [('separate accumulators per group', 'expand.rs xml_to_tokens'), ('partition of selectors', 'expand/subroutines.rs xml_selectors_tokens')])
p('C07', 'Names reach the output unchanged',
  'A kebab-case name is the concatenation of its segments (raw-identifier markers removed). Where the output takes a string the name appears as written; where it takes a Rust name, dashes become underscores and keywords are usable (raw identifiers); string keys appear as written or, where an identifier is needed, are reported.',
  'every name: any number of segments, digits, leading dashes, keywords, raw identifiers', 'The tests use a dozen fixed names.',
  ['ast/ident.rs', 'expand/subroutines.rs', 'expand.rs'], [('kebab parsing', 'ast/ident.rs KebabIdent::parse'), ('snake conversion', 'ast/ident.rs to_snake_ident')])
p('C08', 'Tags are classified by their name alone',
  'A path, a name with generics or a name starting with an ASCII capital is a component; otherwise a name in the SVG list is SVG, a name containing a dash is a custom element, a name in the MathML list is MathML, and anything else is HTML; each kind expands to the constructor of its own namespace. The lists are exactly the SVG and MathML elements of leptos that are not HTML elements.',
  'every tag name', 'Tests use about a dozen of the hundred-odd listed tags; a missing or misplaced list entry silently changes the namespace.',
  ['ast/tag.rs', 'expand.rs'], [('sorted tables', 'ast/tag.rs is_svg_element, is_math_ml_element'), ('classification order', 'ast/tag.rs TagKind::from')])
p('C09', 'Attributes of elements use the right attribute call',
  'On elements `ref` becomes a node reference; `class` and `style` always use their own call; a key with a dash (other than `aria-*`), and any key on SVG and custom elements, is passed as a string to the unchecked attribute call; every other key calls the attribute of that name.',
  'every key on every kind of element', T + 'only a few key and element combinations occur.',
  ['expand/subroutines.rs'], [('attribute kinds', 'expand/subroutines.rs AttributeKind, xml_kv_attribute_tokens')])
p('C10', 'Shorthands mean exactly their long forms',
  '`{x}` is `x={x}` (for attributes and directives alike), a bare name is `name=true`, `.c` and `#i` add exactly the class c and the id i, `[e]` is `move || {e}`, `f[..]` is `move || format!(..)`, `{..e}` spreads e, and a children block in parentheses is one in braces.',
  GR, T + 'each shorthand is compared with its long form for one or two values, in one position.',
  ['ast/ident.rs', 'ast/value.rs', 'ast/attribute/kv.rs', 'ast/attribute/directive.rs', 'ast/attribute/selector.rs', 'ast/attribute/spread_attrs.rs', 'ast/element.rs', 'expand/subroutines.rs'],
  [('braced shorthand', 'ast/ident.rs BracedKebabIdent'), ('value expansion', 'ast/value.rs Value::to_tokens'), ('selectors', 'expand/subroutines.rs xml_selectors_tokens')])
p('C11', 'Value tokens are forwarded verbatim',
  'The tokens between a value\'s delimiters, literals, spread expressions and closure argument lists reach the expansion complete, unmodified, exactly once and at the attribute, directive or child they belong to (once per use in the expansion of the directive).',
  'every token sequence inside a value', 'Tests use simple expressions; loss or duplication for unusual token sequences is not sampled.',
  ['ast/value.rs', 'parse.rs', 'ast/attribute/spread_attrs.rs', 'ast/attribute/kv.rs', 'expand/subroutines.rs'],
  [('take_rest', 'parse.rs'), ('Value::to_tokens', 'ast/value.rs')])
p('C12', 'Directives on elements expand to their documented call',
  '`class:`/`style:` pass the (name, value) pair, `prop:` the name and value, `on:` the event (wrapped when `:undelegated` is given) and handler, `use:` the function and its converted (or default) argument. `attr:`, `clone:` and unknown directives, modifiers other than `:undelegated` on `on:`, and string keys where an identifier is needed are reported.',
  'every directive, key, modifier and value on every kind of element', T + 'most directive, key-form and modifier combinations never occur.',
  ['expand/subroutines.rs', 'ast/attribute/directive.rs'], [('directive table', 'expand/subroutines.rs xml_directive_tokens, event_listener_event_path, use_directive_fn_value')])
p('C13', 'Selectors, spreads and directives on components become attributes',
  'On components each class selector, then all id selectors joined by spaces into one id, then each spread and directive in source order becomes one item of the added attributes: class, style, prop, attr (class, style, custom or checked by name), on, use; a missing value of class, style, prop or attr means true. Unknown directives, and modifiers other than `:undelegated` on `on:`, are reported.',
  'every directive, key, modifier, value and selector list on every component', T + 'combinations on components are barely sampled.',
  ['expand.rs', 'expand/subroutines.rs'], [('any-attribute table', 'expand/subroutines.rs directive_to_any_attr_path'), ('collection', 'expand.rs component_to_tokens')])
p('C14', 'Malformed or unsupported input is always diagnosed',
  'Input outside the documented grammar or using an unsupported combination (missing value, unterminated element, unclosed closure arguments, unknown directive, modifier or prefix, non-string literal child, misplaced or ill-named slot, selectors or spreads on slots, stray tokens) always produces a compile error; it is never silently accepted.',
  IN, 'Diagnostics are not covered by the stable tests at all (the UI tests are not among them).',
  ['ast/element.rs', 'ast/children.rs', 'ast/attribute.rs', 'ast/value.rs', 'expand.rs', 'expand/subroutines.rs', 'lib.rs', 'error_ext.rs'],
  [('emit_error!/abort! at every fallback', 'ast/element.rs Element::parse'), ('report and skip', 'ast/children.rs Children::parse')])
p('C15', 'Well-formed input is never rejected',
  'Input that follows the documented grammar and uses supported combinations expands without any diagnostic, whatever the combination, order, nesting and size.',
  GR, T + 'a spurious rejection in an untested combination is not seen.',
  ['ast/element.rs', 'ast/children.rs', 'ast/attribute.rs', 'ast/tag.rs', 'expand.rs', 'expand/subroutines.rs'],
  [('choice of alternative by peeking', 'ast/attribute.rs Attr::parse, ast/children.rs Child::parse, ast/element.rs Element::parse')])
p('C16', 'Slots are grouped by name and passed to the right field',
  'Inside a component or slot, every `slot:` child is built as a value of that component type, and all slots of the same name go, in source order, to one builder call named by the snake_case form of the name: directly if there is one, as a vector if there are several. No slot is lost, duplicated or passed to another field; slots elsewhere, or whose name is not a single component name, are reported.',
  'every list of slots, names, repetitions and nestings', T + 'only two or three slot layouts are tested.',
  ['expand.rs', 'expand/utils.rs', 'ast/children.rs'], [('grouping', 'expand.rs slots_to_tokens'), ('naming', 'expand/utils.rs upper_camel_to_snake_case')])
p('C17', 'Component children, closure arguments and clones are placed correctly',
  'A component gets a children call exactly when it has at least one non-slot child. Without closure arguments the children are wrapped in a `move ||` closure converted for any children type; with them they are a `move |args|` closure with the arguments verbatim; the `clone:` bindings come right before that closure, once each, in source order.',
  'every component with any attributes, clones, arguments and children', T + 'only a few layouts are tested.',
  ['expand.rs', 'expand/subroutines.rs', 'ast/element.rs'], [('children call', 'expand/subroutines.rs component_children_tokens'), ('clones', 'expand/subroutines.rs component_clone_tokens'), ('closure arguments', 'ast/element.rs parse_closure_args')])
p('C18', 'Trying an alternative has no effect unless it succeeds',
  'When the parser tries one reading of the input and it does not match, the next reading starts at exactly the same token; when it matches, exactly the tokens it covers are consumed. Readings are tried in the documented order, so each input has one meaning.',
  IN, 'A rollback slip needs an input where one alternative fails midway and another succeeds; the tests have almost none.',
  ['parse.rs', 'ast/attribute.rs', 'ast/attribute/spread_attrs.rs', 'ast/value.rs', 'ast/ident.rs', 'ast/children.rs'],
  [('fork and advance', 'parse.rs rollback_err, braced, parenthesized')])
p('C19', 'Generated code is hygienic',
  'All paths the macro adds start at the crate root (`::leptos`, `::std`), so no item in scope at the call site can capture them; every other identifier in the expansion comes from the input or is a method name, a keyword or a local binding.',
  GR, 'Tests run in modules where nothing shadows `leptos` or `std`.',
  ['expand.rs', 'expand/subroutines.rs', 'ast/value.rs', 'ast/children.rs', 'lib.rs'], [('absolute paths in quote!', 'expand.rs')])
p('C20', 'Components are built from their path, generics and properties',
  'A component expands to its props builder with one call per plain attribute, in source order and named by the attribute, then children and slots, then the final build, used with the component function itself; its path is kept as written except that generics are written as turbofish in every segment. A slot uses the builder of its own type in the same way.',
  'every component path, generics and attribute list', T + 'two or three generic components and few attribute lists are tested.',
  ['expand.rs', 'expand/subroutines.rs', 'expand/utils.rs', 'ast/tag.rs'], [('turbofish', 'expand/utils.rs turbofishify'), ('builder', 'expand.rs component_to_tokens'), ('properties', 'expand/subroutines.rs component_kv_attribute_tokens')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
