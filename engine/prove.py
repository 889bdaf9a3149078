"""Runs the verifier on all contracts (in parallel) and gathers the reports."""
import multiprocessing
import os
import signal
import sys
import time

import lemmas
import spec
import sx
import verify
from models import Host
from rust import Abort, Machine
from sx import NeedFirst, Unsupported, Violated

_prog = None
_lost = {}


class Late(Exception):
    pass


def _alarm(*_):
    raise Late()


def plain(rep):
    """a report without closures, to send it between processes"""
    return dict(name=rep.name, where=rep.where, status=rep.status, why=rep.why, leaves=rep.leaves,
                ok=rep.ok_paths, err=rep.err_paths, edges=sorted(rep.edges), called=sorted(rep.called),
                contracts=sorted(rep.contracts), models=sorted(rep.models), spans=sorted(getattr(rep, 'spans', ())),
                stats=rep.stats, wall=rep.wall, failures=[f.as_dict() for f in rep.failures],
                queries=sorted(verify.export_queries(rep.queries)) if rep.queries else [])


def _task(a):
    kind, name, limit = a
    sys.setrecursionlimit(100000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t0 = time.time()
    try:
        if kind == 'props':
            return kind, lemmas.prove(_prog)
        if kind == 'cut':
            return kind, plain(verify.verify_cut(_prog, name, _lost))
        return kind, plain(verify.verify_lemma(_prog, name, _lost))
    except Late:
        if kind == 'props':
            return kind, {'lemmas': dict(paths=0, failures=[], why='no answer within %d s' % limit)}
        return kind, dict(name=name, where=None, status='undecided', why='no answer within %d s' % limit, leaves=0, ok=0,
                          err=0, edges=[], called=[], contracts=[], models=[], spans=[], stats={},
                          wall=time.time() - t0, failures=[], queries=[])
    finally:
        signal.alarm(0)


HEAVY = ['component_tok', 'slot_tok', 'mview', 'xml_tok']


class Outcome:
    """everything the verifier said"""

    def __init__(self):
        self.reports = []       # functions under contract
        self.lemmas = []        # other functions, executed on arbitrary arguments
        self.props = {}         # the properties as lemmas over the contracts
        self.lost = {}
        self.term = None        # a cycle of calls on inputs that do not shrink, or None
        self.wall = 0
        self.error = None

    def failed(self):
        """[(function, failure)]"""
        out = [(r, f) for r in self.reports + self.lemmas for f in r['failures']]
        if self.term:
            out.append((dict(name='termination', where=None),
                        dict(obligation='termination/cycle', what='recursion on an input that need not shrink: ' +
                             ' -> '.join(self.term), properties=['C03'], path=[])))
        return out

    def undecided(self):
        return {r['name']: r['why'] for r in self.reports + self.lemmas if r['status'] == 'undecided'}


def find_cycle(edges):
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    state = {}

    def visit(n, path):
        state[n] = 1
        for m in sorted(g.get(n, ())):
            if state.get(m) == 1:
                return path[path.index(m):] + [m] if m in path else [n, m]
            if m not in state:
                r = visit(m, path + [m])
                if r:
                    return r
        state[n] = 2
        return None
    for n in sorted(g):
        if n not in state:
            r = visit(n, [n])
            if r:
                return r
    return None


def prove(mir_path, root, jobs=8, limit=200):
    global _prog, _lost
    out = Outcome()
    t0 = time.time()
    try:
        _prog = verify.load(mir_path, root)
        _lost = verify.lost_cuts(_prog)
    except Exception as e:          # MIR of a shape we do not know
        out.error = repr(e)
        return out
    out.lost = _lost
    names = [n for n in HEAVY if n not in _lost] + [n for n in spec.ORDER if n not in _lost and n not in HEAVY]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(jobs) as pool:
        for kind, r in pool.imap_unordered(_task, [('cut', n, limit) for n in names], chunksize=1):
            out.reports.append(r)
        props = pool.apply_async(_task, [('props', None, limit)])
        spans = sorted({s for r in out.reports for s in r['spans']})
        for kind, r in pool.imap_unordered(_task, [('lemma', n, limit) for n in spans], chunksize=1):
            out.lemmas.append(r)
        out.props = props.get()[1]
    out.reports.sort(key=lambda r: r['name'])
    out.term = find_cycle({tuple(e) for r in out.reports for e in r['edges']})
    out.wall = time.time() - t0
    return out


if __name__ == '__main__':
    o = prove(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '/repo')
    print('error', o.error, 'lost', o.lost, 'term', o.term, '%.1fs' % o.wall)
    for r in o.reports + o.lemmas:
        if r['status'] != 'proved' or os.environ.get('ALL'):
            print('%-28s %-9s leaves=%d %.1fs %s' % (r['name'], r['status'], r['leaves'], r['wall'], r['why'] or ''))
        for f in r['failures'][:4]:
            print('   ', f['obligation'], f['what'][:300], f['properties'])
            if os.environ.get('TRACE'):
                for l in f['path']:
                    print('        ', l)
    for n, r in sorted(o.props.items()):
        if r['failures'] or r['why']:
            print('lemma over the contracts:', n, r['failures'][:3], r['why'] or '')
    print({s: sum(1 for r in o.reports + o.lemmas if r['status'] == s) for s in ('proved', 'failed', 'undecided')})
