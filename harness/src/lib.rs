//! Replay harness: runs the real `mview_impl` (from /repo's working tree) on
//! every brace group given to `batch!`, inside a real rustc proc-macro server
//! and inside proc_macro_error2's entry point, exactly as `mview!` does.
//! One JSON object per case is written to $MVIEW_OUT; nothing is expanded.
#[allow(warnings)]
mod entry;

use proc_macro::{Delimiter, Spacing, TokenStream, TokenTree};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

/// the syntax context of a span (the Debug form of a span starts with it)
fn context(s: proc_macro::Span) -> String {
    format!("{s:?}").split(' ').next().unwrap_or("").to_string()
}

/// does a name with this span not mean what it means where the macro is called?
fn hidden(s: proc_macro::Span) -> bool {
    let c = context(s);
    c == context(proc_macro::Span::mixed_site()) && c != context(proc_macro::Span::call_site())
}

fn dump(ts: TokenStream, o: &mut String) {
    o.push('[');
    for (i, tt) in ts.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        match tt {
            TokenTree::Ident(id) => {
                o.push_str("[\"i\",");
                esc(&id.to_string(), o);
                if hidden(id.span()) {
                    o.push_str(",1");
                }
                o.push(']');
            }
            TokenTree::Punct(p) => {
                o.push_str("[\"p\",");
                esc(&p.as_char().to_string(), o);
                o.push_str(if p.spacing() == Spacing::Joint { ",1]" } else { ",0]" });
            }
            TokenTree::Literal(l) => {
                o.push_str("[\"l\",");
                esc(&l.to_string(), o);
                o.push(']');
            }
            TokenTree::Group(g) => {
                o.push_str("[\"g\",\"");
                o.push_str(match g.delimiter() {
                    Delimiter::Parenthesis => "(",
                    Delimiter::Brace => "{",
                    Delimiter::Bracket => "[",
                    Delimiter::None => "n",
                });
                o.push_str("\",");
                dump(g.stream(), o);
                o.push(']');
            }
        }
    }
    o.push(']');
}

/// `$e:expr` style None-delimited groups: `none!` in a case is replaced by a
/// None-delimited group around its brace group.
fn none_groups(ts: TokenStream) -> TokenStream {
    let mut out = Vec::new();
    let mut it = ts.into_iter().peekable();
    while let Some(tt) = it.next() {
        match tt {
            TokenTree::Ident(ref id) if id.to_string() == "__none" => {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    out.push(TokenTree::Group(proc_macro::Group::new(
                        Delimiter::None,
                        none_groups(g.stream()),
                    )));
                    it.next();
                } else {
                    out.push(tt);
                }
            }
            TokenTree::Group(g) => {
                let mut n = proc_macro::Group::new(g.delimiter(), none_groups(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            tt => out.push(tt),
        }
    }
    out.into_iter().collect()
}

#[proc_macro]
pub fn batch(input: TokenStream) -> TokenStream {
    let mut file = std::fs::File::create(&std::env::var("MVIEW_OUT").expect("MVIEW_OUT")).expect("create");
    let msg: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let m2 = msg.clone();
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        *m2.lock().unwrap() = Some(i.to_string());
    }));
    for tt in input {
        let TokenTree::Group(g) = tt else { panic!("batch!: expected groups") };
        let ts = none_groups(g.stream());
        let mut out = String::new();
        out.push_str("{\"in\":");
        dump(ts.clone(), &mut out);
        // a started line without an end: the case killed or hung the compiler
        file.write_all(out.as_bytes()).expect("write");
        out.clear();
        let mut outs = Vec::new();
        for _ in 0..2 {
            let ts = ts.clone();
            *msg.lock().unwrap() = None;
            let r = catch_unwind(AssertUnwindSafe(|| {
                proc_macro_error2::entry_point(
                    AssertUnwindSafe(|| entry::mview(ts)),
                    false,
                )
            }));
            let mut one = String::new();
            match r {
                Ok(ts) => {
                    one.push_str("\"out\":");
                    dump(ts, &mut one);
                }
                Err(_) => {
                    one.push_str("\"panic\":");
                    let m = msg.lock().unwrap().clone().unwrap_or_default();
                    esc(&m, &mut one);
                }
            }
            outs.push(one);
        }
        out.push(',');
        out.push_str(&outs[0]);
        if outs[0] != outs[1] {
            out.push_str(",\"unstable\":true");
        }
        out.push_str("}\n");
        file.write_all(out.as_bytes()).expect("write");
    }
    std::panic::set_hook(prev);
    TokenStream::new()
}
