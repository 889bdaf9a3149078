"""The verifier: every function under contract is executed on arbitrary
arguments and compared with its contract, path by path; whatever remains of
the guarantees (lemmas about helper functions, termination) is checked here
too.  See DESIGN.md."""
import os
import re
import sys
import time
import traceback

import mir
import models
import rust
import smt
import spec
import strs
import sx
import symspec
from models import Host
from rust import Abort, Machine, Program
from sx import Adt, NeedFirst, O, Opq, PB, Prune, Ref, Seq, SPAN, U, UNIT, Unsupported, Violated, W
from symspec import SAbort, SFail

sys.setrecursionlimit(100000)


class Failure:
    def __init__(self, cut, kind, msg, labels, path, names=()):
        self.cut, self.kind, self.msg, self.labels, self.path, self.names = cut, kind, msg, sorted(labels), path, list(names)

    def as_dict(self):
        return dict(obligation='%s/%s' % (self.cut, self.kind), what=self.msg, properties=self.labels, path=self.path,
                    names=self.names)


class Report:
    """the outcome for one function under contract"""

    def __init__(self, name):
        self.name = name
        self.status = 'proved'      # proved, failed, undecided, lost
        self.why = None
        self.failures = []
        self.leaves = 0
        self.edges = set()
        self.called = set()
        self.contracts = set()
        self.models = set()
        self.stats = {}
        self.queries = {}
        self.wall = 0
        self.ok_paths = 0
        self.err_paths = 0
        self.where = None


def function_of(prog, cut):
    key = cut.key
    if key[0] is not None:
        return prog.impls.get(key[:3]), {}
    name = key[2]
    fs = [f for f in prog.funcs.values() if f.key[0] is None and f.name.rsplit('::', 1)[-1] == name
          and '{closure' not in f.name and not f.is_const]
    if len(fs) != 1:
        return None, {}
    env = {}
    if len(key) > 3:
        names = prog.generics.get(name) or []
        if len(names) != 1:
            return None, {}
        env = {names[0]: key[3]}
    return fs[0], env


NPARAMS = {}


def lost_cuts(prog):
    """the contracts whose function is not there (any more)"""
    out = {}
    for n, c in spec.CUTS.items():
        f, _ = function_of(prog, c)
        if f is None:
            out[n] = 'no function %s' % (c.key,)
            continue
        if c.kind == 'parse':
            if len(f.params) != 1:
                out[n] = 'signature'
        else:
            want = len(c.args) + (1 if c.key[2] == 'to_tokens' else 0)
            if len(f.params) != want:
                out[n] = 'signature'
                continue
            tys = [sx.norm_ty(f.tys[p]) for p in f.params]
            for a, t in zip(c.args, tys):
                a = {'Cursor': 'TokenStream', 'Name': 'str'}.get(a, a)
                if a != t:
                    out[n] = 'signature: %s instead of %s' % (t, a)
    return out


def argument(ty, i):
    if ty == 'Cursor':
        return ('root',)
    if ty == 'Name':
        return Seq('str', [O(('valid', ('arg', i)))])
    return sx.mk_opq(ty, ('arg', i))


def facts_text(w, limit=14):
    out = []
    for a, v in w.facts.items():
        out.append('%s%s' % ('' if v else 'not ', sx.show(a)[:160]))
    return out[-limit:] if len(out) > limit else out


def verify_cut(prog, name, lost=()):
    rep = Report(name)
    cut = spec.CUTS[name]
    t0 = time.time()
    f, env = function_of(prog, cut)
    rep.where = f.name
    for k in sx.STATS:
        sx.STATS[k] = 0
    sx.LOG.queries = {}
    models.CALLED.clear()
    models.MODELLED.clear()
    models.SPAN_FNS.clear()
    seen = set()

    def leaf(w):
        h = Host(prog, cut, lost)
        m = Machine(prog, cut, h)
        try:
            check_leaf(w, h, m, cut, f, env, rep)
        except Violated as e:
            if not e.checked:
                sx.difference()
            labels = set(e.labels) or set(cut.props)
            if w.env:
                # on a path that asks the environment, a clock or a static
                labels.add('C05')
            k = (e.kind, e.msg, tuple(sorted(labels)))
            if k not in seen:
                seen.add(k)
                rep.failures.append(Failure(name, e.kind, e.msg, labels, facts_text(w), e.names or w.names or strs.names(w)))
        finally:
            rep.called |= m.called
            rep.edges |= h.edges
        return True

    try:
        rep.leaves = len(sx.explore(leaf))
        rep.status = 'failed' if rep.failures else 'proved'
    except (Unsupported, NeedFirst) as e:
        rep.status = 'failed' if rep.failures else 'undecided'
        rep.why = str(e) or type(e).__name__
    except RecursionError:
        rep.status = 'failed' if rep.failures else 'undecided'
        rep.why = 'recursion'
    except Exception as e:
        rep.status = 'failed' if rep.failures else 'undecided'
        rep.why = 'internal: ' + repr(e)
        rep.trace = traceback.format_exc()
    rep.contracts = {b for a, b in models.CALLED}
    rep.models = set(models.MODELLED)
    rep.spans = set(models.SPAN_FNS)
    rep.stats = dict(sx.STATS)
    rep.queries = sx.LOG.queries
    rep.wall = time.time() - t0
    return rep


def verify_lemma(prog, name, lost=()):
    """a helper whose value is only a span: executed on arbitrary arguments,
    it must not panic"""
    rep = Report(name)
    f = prog.funcs[name]
    rep.where = f.name
    t0 = time.time()
    for k in sx.STATS:
        sx.STATS[k] = 0
    sx.LOG.queries = {}
    models.CALLED.clear()
    models.MODELLED.clear()
    models.SPAN_FNS.clear()

    def leaf(w):
        h = Host(prog, None, lost)
        m = Machine(prog, None, h)
        args = []
        for i, p in enumerate(f.params):
            t = sx.norm_ty(f.tys[p])
            args.append(SPAN if t in models.SPAN_TYPES else argument(t, i))
        try:
            m.run(f, args, {})
        except Abort:
            pass
        except Violated as e:
            rep.failures.append(Failure(name, e.kind, e.msg, set(e.labels) or {'C02', 'C19'}, facts_text(w)))
        rep.called |= m.called
        return True

    try:
        rep.leaves = len(sx.explore(leaf))
        rep.status = 'failed' if rep.failures else 'proved'
    except (Unsupported, NeedFirst) as e:
        rep.status = 'failed' if rep.failures else 'undecided'
        rep.why = str(e) or type(e).__name__
    except Exception as e:
        rep.status = 'failed' if rep.failures else 'undecided'
        rep.why = 'internal: ' + repr(e)
    rep.ok_paths = rep.leaves
    rep.models = set(models.MODELLED)
    rep.spans = set()
    rep.stats = dict(sx.STATS)
    rep.queries = sx.LOG.queries
    rep.wall = time.time() - t0
    return rep


def export_queries(qs):
    return {smt.script(fs, a, v, symspec.PROGRESS) for fs, a, v in qs}


def run_spec(h, cut, args):
    """('ok', value, cursor) | ('err',) | ('none',) | ('abort',)"""
    try:
        if cut.kind == 'parse':
            v, c = cut.fn(h, args[0])
            return 'ok', v, c
        if cut.generic == 'some':
            comp = cut.name in ('component_tok', 'slot_tok')
            if sx.is_variant(sx.field(args[0], None, 'tag'), 'Component') != comp:
                return ('none',)
        return 'ok', cut.fn(h, *args), None
    except SFail:
        return ('err',)
    except SAbort:
        return ('abort',)


def check_leaf(w, h, m, cut, f, env, rep):
    args = [('root',)] if cut.kind == 'parse' else [argument(t, i) for i, t in enumerate(cut.args)]
    want = run_spec(h, cut, args)
    es, w.E = w.E, []
    h.stack = []
    # the real function
    pb = None
    if cut.kind == 'parse':
        pb = PB(m.alloc(('root',)))
        h.uf_new(pb.cell)
        actual = [pb]
    elif cut.args == ['Cursor']:
        actual = [Seq('tok', [O(('rest', ('root',)))])]
    else:
        actual = list(args)
    ts = None
    if cut.key[2] == 'to_tokens':
        ts = Ref(m.alloc(Seq('tok', [O(('T0',))])))
        actual.append(ts)
    aborted = False
    res = None
    try:
        res = m.val(m.run(f, actual, env))
        if ts is not None:
            res = m.val(ts)
            if not (res.parts and isinstance(res.parts[0], O) and res.parts[0].term == ('T0',)):
                raise Violated('frame', 'to_tokens changes what was there', cut.props)
            res = Seq('tok', res.parts[1:])
    except Abort:
        aborted = True
    ei, w.E = w.E, []
    a = sx.e_true(es)
    b = sx.e_true(ei)
    if not b and res is not None and cut.key[2] == 'mview_impl' and has_error(res):
        b = ('T', frozenset())
    if not aborted and res is not None and cut.kind == 'parse' and sx.variant(res) == 'Ok' and not b:
        if h.leftover(m, pb.cell):
            raise Violated('leftover', 'tokens of a group are left unread', ('C14', 'C15', 'C18'))
    if a and b:
        return
    if a and not b:
        raise Violated('unreported', 'the contract reports an error here, the code does not (%s)' % outcome(want, res),
                       ('C14', 'C01') + tuple(a[-1] or ()))
    if b and not a:
        raise Violated('false-report', 'the code reports an error on what the contract accepts',
                       ('C15',) + tuple(b[-1] or cut.props))
    w.why = None
    if cut.kind == 'parse':
        got = sx.variant(res)
        if want[0] == 'err':
            rep.err_paths += 1
            if got != 'Err':
                raise Violated('result', 'the code accepts what the contract refuses', cut.props)
            return
        rep.ok_paths += 1
        if got != 'Ok':
            raise Violated('result', 'the code refuses what the contract accepts', cut.props)
        v = m.val(m.get_field(res, 'Ok', '_0'))
        if not sx.eq(v, want[1]):
            msg, lab = w.why or ('values differ', ())
            raise Violated('result', 'the value returned: ' + msg, lab or cut.props)
        c = symspec.canon(m.load(pb.cell, ()))
        c2 = symspec.canon(want[2])
        if c != c2:
            raise Violated('result', 'stops reading at %s, the contract at %s' % (sx.show(c)[:200], sx.show(c2)[:200]),
                           cut.props)
        if cut.name in symspec.PROGRESS and symspec.reach(c, ('root',)) != 'after':
            raise Violated('termination', 'succeeds without reading anything', ('C03',))
        return
    rep.ok_paths += 1
    if cut.generic == 'some':
        k = sx.variant(res)
        if want[0] == 'none':
            if k != 'None':
                raise Violated('result', 'tokens for an element of the other kind', cut.props)
            return
        if k != 'Some':
            raise Violated('result', 'no tokens', cut.props)
        res = m.val(m.get_field(res, 'Some', '_0'))
    if not sx.eq(res, want[1]):
        msg, lab = w.why or ('tokens differ', ())
        raise Violated('result', 'the tokens returned: ' + msg, lab or cut.props)


def has_error(res):
    return isinstance(res, Seq) and any(isinstance(p, U) and isinstance(p.v, sx.Tk) and p.v.k == 'x' for p in res.parts)


def outcome(want, res):
    return want[0]


def load(mir_path, root):
    """the functions of leptos-mview-core, and those of leptos-mview-macro
    (from the MIR of the harness, which holds that crate as its module `entry`)"""
    text = open(mir_path).read()
    if os.path.exists(mir_path + '.entry'):
        keep = False
        for line in open(mir_path + '.entry'):
            if line[:1] not in ' }\n':
                keep = line.startswith('fn entry::')
            if keep:
                text += line
    return Program(text, root)


if __name__ == '__main__':
    prog = load(sys.argv[1], '/repo')
    lost = lost_cuts(prog)
    print('lost', lost)
    names = sys.argv[2:] or spec.ORDER
    for n in names:
        r = verify_cut(prog, n, lost)
        print('%-28s %-9s leaves=%d ok=%d err=%d %.1fs %s' % (n, r.status, r.leaves, r.ok_paths, r.err_paths, r.wall,
                                                              r.why or ''))
        if getattr(r, 'trace', None) and os.environ.get('TRACE'):
            print(r.trace)
        for x in r.failures[:4]:
            print('   ', x.kind, x.msg[:300], x.labels)
            if os.environ.get('TRACE'):
                for l in x.path:
                    print('        ', l)
