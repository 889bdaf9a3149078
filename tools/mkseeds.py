#!/usr/bin/env python3
"""Plants every seeded bug in a scratch copy of /repo, confirms it (builds, the
stable tests pass, the demonstration tells the two trees apart) and writes
/verif/seeded/<id>/.  usage: mkseeds.py [id...]"""
import json, os, subprocess, sys, shutil, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/s/repo'
A = 'leptos-mview-core/src/'
B = []


def bug(id, prop, edits, body, needs, breaks):
    B.append((id, prop, edits, body, needs, breaks))


DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this input
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2025-09-01 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$tmp/target"
mkdir "$tmp/src" "$tmp/examples"
cp "$here/demo.rs" "$tmp/src/lib.rs"
echo 'demo::demo! {} fn main() {}' > "$tmp/examples/t.rs"
cp /repo/Cargo.lock "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[lib]
proc-macro = true
[dependencies]
leptos-mview-core = { path = "/repo/leptos-mview-core" }
proc-macro-error2 = "2"
[workspace]
TOML
cd "$tmp" || exit 3
cargo build --offline -q --lib 2>"$tmp/log" || { cat "$tmp/log"; exit 3; }
# the checks run inside the macro, as the compiler runs it
timeout 60 cargo build --offline -q --example t > "$tmp/log" 2>&1
rc=$?
grep -a '^FAIL' "$tmp/log" || tail -5 "$tmp/log"
exit $rc
'''

HEAD = '''#![allow(dead_code)]
extern crate proc_macro;
use leptos_mview_core::mview_impl;
use proc_macro::TokenStream;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, PartialEq)]
enum Out {
    Tokens(String),
    Reported,
    Panicked,
}
use Out::*;

/// Runs the macro on `src`, in its entry point.
fn run(src: &str) -> Out {
    let ts: TokenStream = src.parse().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| {
        proc_macro_error2::entry_point(AssertUnwindSafe(|| mview_impl(ts.into()).into()), false).to_string()
    }));
    match r {
        Ok(t) => {
            let t: String = t.split_whitespace().collect();
            if t.contains("compile_error!") { Reported } else { Tokens(t) }
        }
        Err(_) => Panicked,
    }
}
fn toks(src: &str) -> String {
    match run(src) {
        Tokens(t) => t,
        o => fail(&format!("{src}: {o:?}")),
    }
}
fn fail(m: &str) -> ! {
    eprintln!("FAIL {m}");
    std::process::exit(1)
}
fn check(c: bool, m: &str) {
    if !c {
        fail(m)
    }
}
#[proc_macro]
pub fn demo(_: TokenStream) -> TokenStream {
    std::panic::set_hook(Box::new(|_| ()));
%s    TokenStream::new()
}
'''

exec(open(os.path.join(V, 'tools', 'seeds_def.py')).read())

ENV = dict(os.environ, PATH='/root/.cargo/bin:/usr/local/cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='nightly-2025-09-01',
           CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only',
           CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_TARGET_DIR=SC + '/target')


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def main():
    only = sys.argv[1:]
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or [])
    for id, prop, edits, body, needs, breaks in B:
        if only and id not in only:
            continue
        sh('git checkout -q -- .', cwd=SC)
        ok = True
        for f, a, b in edits:
            p = os.path.join(SC, A + f)
            s = open(p).read()
            if s.count(a) != 1:
                print(id, 'EDIT does not match', f, s.count(a))
                ok = False
                break
            open(p, 'w').write(s.replace(a, b))
        if not ok:
            continue
        diff = sh('git diff', cwd=SC).stdout
        r = sh('timeout 200 cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=SC, env=ENV)
        bad = [l for l in r.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
        built = 'error: could not compile' not in r.stderr
        d = os.path.join(V, 'seeded', id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(HEAD % textwrap.indent(textwrap.dedent(body).strip('\n') + '\n', '    '))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        # the demo names /repo: run it with the scratch copy's patch in /repo's place
        t = sh(['bash', d + '/demo.sh'], cwd='/repo')
        c0 = t.returncode
        o0 = t.stdout
        sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        try:
            t = sh(['bash', d + '/demo.sh'], cwd='/repo')
        finally:
            sh('git -C /repo checkout -- .')
        print(id, prop, 'HANG' if r.returncode == 124 else '', 'built' if built else 'NOT BUILT', 'failing:', bad, 'clean', c0, o0[-300:], 'patched', t.returncode, t.stdout[-200:].strip(), flush=True)
        if not built:
            print(r.stderr[-1500:])
    sh('git checkout -q -- .', cwd=SC)


main()
