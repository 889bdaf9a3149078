"""Builds the harness against /repo and runs inputs through the real code."""
import json
import os
import re
import subprocess
import sys
import time
import conc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MVIEW_REPO', '/repo')
TOOLCHAIN = 'nightly-2025-09-01'


def env(target):
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '')
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
             CARGO_TARGET_DIR=target, CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    e.pop('RUSTFLAGS', None)
    return e


WRAPPER = """#!/bin/sh
# also writes down the MIR of the crates under check
case " $* " in
*" --crate-name leptos_mview_core "*) exec "$@" --emit=mir=%s -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no ;;
*" --crate-name mview_harness "*) exec "$@" --emit=mir=%s -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no ;;
esac
exec "$@"
"""

ENTRY = 'pub fn mview(input: proc_macro::TokenStream) -> proc_macro::TokenStream {\n' \
        '    leptos_mview_core::mview_impl(input.into()).into()\n}\n'


def entry_source():
    """the text of the crate that exports the macro, as a module: without the
    attributes that make it a macro and without its crate-level attributes; None
    if there is no such function"""
    try:
        s = open(os.path.join(REPO, 'leptos-mview-macro/src/lib.rs')).read()
    except OSError:
        return None
    s = re.sub(r'(?m)^\s*//!.*\n', '', s)
    s = re.sub(r'#!\[[^\]]*\]', '', s)
    s = re.sub(r'(?m)^\s*use proc_macro_error2::proc_macro_error;\n', '', s)
    s, n = re.subn(r'#\[(?:proc_macro_error2::)?proc_macro_error(?:\([^)]*\))?\]', '', s)
    s, m = re.subn(r'#\[proc_macro\]', '', s)
    if n != 1 or m != 1 or not re.search(r'\bpub fn mview\s*\(', s):
        return None
    return s


class BuildError(Exception):
    pass


class Harness:
    def __init__(self, work):
        self.work = work
        os.makedirs(work, exist_ok=True)
        self.target = os.path.join(work, 'target')
        self.cdylib = None
        self.mir = os.path.join(work, 'core.mir')   # the MIR of the code the harness runs, from the same build
        self.cases = 0

    def build(self):
        if self.cdylib:
            return
        h = os.path.join(self.work, 'harness')
        os.makedirs(h + '/src', exist_ok=True)
        src = os.path.join(VERIF, 'harness')
        t = open(src + '/Cargo.toml').read().replace('"../../repo/', '"%s/' % REPO)
        open(h + '/Cargo.toml', 'w').write(t)
        open(h + '/Cargo.lock', 'w').write(open(src + '/Cargo.lock').read())
        open(h + '/src/lib.rs', 'w').write(open(src + '/src/lib.rs').read())
        real = entry_source()
        open(h + '/src/entry.rs', 'w').write(real or ENTRY)
        wrapper = os.path.join(self.work, 'rustc-wrapper')
        with open(wrapper, 'w') as f:
            f.write(WRAPPER % (self.mir, self.mir + '.entry'))
        os.chmod(wrapper, 0o755)
        e = env(self.target)
        e['RUSTC_WRAPPER'] = wrapper
        build = ['cargo', 'build', '--offline', '--message-format=json']
        p = subprocess.run(build, cwd=h, env=e, capture_output=True, text=True, timeout=600)
        self.entry = real is not None
        if p.returncode and real:
            # the macro crate is of a shape we cannot put in a module
            self.entry = False
            open(h + '/src/entry.rs', 'w').write(ENTRY)
            p = subprocess.run(build, cwd=h, env=e, capture_output=True, text=True, timeout=600)
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'mview_harness':
                self.cdylib = [f for f in m['filenames'] if f.endswith('.so')][0]
        if p.returncode or not self.cdylib:
            raise BuildError(p.stderr[-3000:])

    def run(self, cases, timeout=60, deaths=2, again=False):
        """-> list of records (one per case); a case that kills or hangs the
        compiler gives {'panic': ..}; a case that does not lex gives None;
        after `deaths` such cases the rest is given up ('unrun')"""
        self.build()
        if not cases:
            return []
        tag = '%d' % os.getpid()
        src = os.path.join(self.work, 'b%s.rs' % tag)
        out = os.path.join(self.work, 'b%s.json' % tag)
        with open(src, 'w') as f:
            f.write('#![allow(warnings)]\nmview_harness::batch! {\n')
            for c in cases:
                f.write('{ %s }\n' % c)
            f.write('}\n')
        e = env(self.target)
        e['MVIEW_OUT'] = out
        if os.path.exists(out):
            os.unlink(out)

        def limits():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
        dead, err, nolex = None, '', False
        errf = os.path.join(self.work, 'b%s.err' % tag)
        with open(errf, 'w') as ef:
            p = subprocess.Popen(['rustc', '--edition=2021', '--crate-type=lib', '--emit=metadata',
                                  '-o', out + '.rmeta', '--extern', 'mview_harness=' + self.cdylib, src],
                                 env=e, stdout=subprocess.DEVNULL, stderr=ef, cwd=self.work, preexec_fn=limits)
        # the limit is on one case, not on the list: time without progress
        size, since = -1, time.monotonic()
        while True:
            try:
                rc = p.wait(0.25)
                break
            except subprocess.TimeoutExpired:
                k = os.path.getsize(out) if os.path.exists(out) else 0
                if k != size:
                    size, since = k, time.monotonic()
                elif time.monotonic() - since > timeout:
                    dead = 'no answer within %d s' % timeout
                    p.kill()
                    p.wait()
                    break
        with open(errf, errors='replace') as f:
            err = f.read()
        os.unlink(errf)
        if dead is None:
            nolex = rc == 1 and 'aborting due to' in err
        recs, started = None, None
        if os.path.exists(out):
            with open(out) as f:
                lines = f.read().split('\n')
            recs = [json.loads(l) for l in lines[:-1]]
            started = lines[-1]
        for x in (src, out, out + '.rmeta'):
            if os.path.exists(x):
                os.unlink(x)
        if recs is not None and len(recs) == len(cases):
            return recs
        if recs is None or nolex:
            if len(cases) == 1:
                if dead is None:
                    return [None]       # does not lex
                if not again:
                    return self.run(cases, timeout + 10, 1, True)
                return [{'in': [], 'panic': dead}]
            # lexing error somewhere: bisect
            k = len(cases) // 2
            return self.run(cases[:k], timeout, deaths) + self.run(cases[k:], timeout, deaths)
        # died in case len(recs)
        n = len(recs)
        r = {'in': json.loads(started[6:]) if started else [],
             'panic': dead or 'the compiler process died: ' + err[-400:]}
        if not again:
            # once more, alone: it may be the machine (busy, a process ended)
            one = self.run(cases[n:n + 1], timeout + 10, 1, True)[0]
            if one is not None and not any(x in one.get('panic', '') for x in ('no answer', 'process died')):
                return recs + [one] + self.run(cases[n + 1:], timeout, deaths)
        if deaths <= 1:
            rest = [{'unrun': 1}] * (len(cases) - n - 1)
        else:
            rest = self.run(cases[n + 1:], min(timeout, 15), deaths - 1)
        return recs + [r] + rest

    def judge(self, cases, timeout=60):
        """-> [(case, record, verdict)]"""
        recs = self.run(cases, timeout)
        out = []
        for c, r in zip(cases, recs):
            out.append((c, r, 'nolex' if r is None else 'unrun' if 'unrun' in r else conc.judge(r)))
        return out


if __name__ == '__main__':
    h = Harness(os.environ.get('WORK', '/tmp/w/hwork'))
    sys.setrecursionlimit(10000)
    for c, r, v in h.judge(sys.argv[1:]):
        print('IN ', c)
        print('   verdict', v)
        if r and 'out' in r:
            print('   OUT', conc.show(r['out']))
