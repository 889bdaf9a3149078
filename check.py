#!/usr/bin/env python3
"""check.py <property>: decides one property for the code in /repo now.

1. builds /repo's leptos-mview-core (as a dependency of the replay harness) and
   takes the MIR of that very compilation;
2. verifies every function under contract on arbitrary arguments
   (engine/prove.py): each obligation is discharged, failed, or undecided;
3. replays the contract of the whole macro on real inputs through the real
   code (engine/batch.py): gives failed obligations a failing input, and is the
   bounded stand-in for undecided ones.
"""
import json
import os
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.setrecursionlimit(20000)
import batch
import prove
import replay
import smt
import spec
import trust

QUICK, THOROUGH, MORE = 15000, 150000, 60000


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, '.work'))
    try:
        return run(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, work, t0):
    h = replay.Harness(work)
    h.build()
    o = prove.prove(h.mir, replay.REPO, limit=200 if tier == 'quick' else 600)
    s = smt.confirm(o, ['z3'] if tier == 'quick' else ['z3', 'cvc5'])
    for name, solver, _ in s.refuted:
        for r in o.reports + o.lemmas:
            if r['name'] == name and r['status'] == 'proved':
                r['status'], r['why'] = 'undecided', '%s refutes a decision of the verifier' % solver
    fails = [(r, f) for r, f in o.failed() if prop in f['properties']]
    others = len(o.failed()) - len(fails)

    names = [n for _, f in o.failed() for n in f.get('names', ())]
    res = batch.run(h, batch.cases(seed, QUICK if tier == 'quick' else THOROUGH, list(dict.fromkeys(names))[:60]))
    if prop == 'C05':
        res.bad += batch.environment(h, batch.cases(seed, 2000))
    mine = [(c, v) for c, v in res.bad if prop in v['labels']]
    tried, bad = res.n, res.bad
    if fails and not mine:
        # look harder for an input that shows the failed obligation
        more = batch.run(h, batch.cases(seed + 7919, MORE)[-MORE:])
        tried += more.n
        bad = bad + more.bad
        # any input the code and the contracts disagree on shows it
        mine = [(c, v) for c, v in more.bad if prop in v['labels']] or bad
    if not mine and prop == 'C18' and any(spec.CUTS[n].kind == 'parse' and prop in spec.CUTS[n].props
                                          for n in set(o.undecided()) | set(o.lost) if n in spec.CUTS):
        # no obligation tells which reading of the input went wrong
        mine = bad

    write_evidence(prop, tier, seed, t0, o, s, res, tried, fails, mine)
    rp = os.path.join(VERIF, 'evidence', prop + '-replay.json')
    if os.path.exists(rp):
        os.unlink(rp)
    und = o.undecided()
    if o.error:
        print('bounded: the MIR could not be read (%s)' % o.error)
    for n in sorted(o.lost):
        print('bounded: no function for the contract %s (%s): verified inside its callers' % (n, o.lost[n]))
    for n in sorted(und):
        print('bounded: %s is beyond the verifier now (%s)' % (n, und[n]))
    if others or len(res.bad) > len(mine):
        print('note: %d obligations and %d inputs break other properties only'
              % (others, len([1 for c, v in res.bad if prop not in v['labels']])))
    obl = [dict(function=r['name'], where=r['where'], **f) for r, f in fails]
    for x in obl[:5]:
        print('failed obligation: %s: %s' % (x['obligation'], x['what'][:300]))
    if mine:
        mine.sort(key=lambda x: len(x[0]))
        c, v = mine[0]
        json.dump({'property': prop, 'input': c, 'kind': v['kind'], 'detail': v['detail'],
                   'expected': v.get('expected'), 'got': v.get('got'),
                   'how': 'mview! { %s } through engine/replay.py' % c,
                   'failed_obligations': obl[:20],
                   'more': [x[0] for x in mine[1:6]]}, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if fails:
        json.dump({'property': prop, 'failed_obligations': obl[:40], 'inputs_tried': tried,
                   'how': 'engine/prove.py: the obligation above is not discharged for the code in /repo; `path` lists '
                          'the assumptions under which it fails'}, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        return 1
    rs = o.reports
    bad = sorted(n for n, r in o.props.items() if r['failures'] or r['why'])
    if bad:
        print('bounded: the lemmas over the contracts %s do not go through' % ', '.join(bad))
    print('ok: %d of %d functions under contract proved, %d paths; %d inputs replayed, %s'
          % (sum(r['status'] == 'proved' for r in rs), len(spec.ORDER), sum(r['leaves'] for r in rs), res.n,
             dict(res.counts)))
    return 0


def write_evidence(prop, tier, seed, t0, o, s, res, tried, fails, mine):
    rows, total, done = [], 0, 0
    for r in o.reports + o.lemmas:
        n = r['stats'].get('leaves', 0)
        total += n
        if r['status'] == 'proved':
            done += n
        cut = spec.CUTS.get(r['name'])
        rows.append(dict(function=r['where'] or r['name'], contract=r['name'] if cut else 'no panic',
                         properties=cut.props if cut else ['C02'], status=r['status'], why=r['why'],
                         paths=r['leaves'], accepted=r['ok'], refused=r['err'],
                         conditions=n, decisions=r['stats'].get('forks', 0), implied=r['stats'].get('implied', 0),
                         callees_by_contract=r['contracts'], seconds=round(r['wall'], 2)))
    und = o.undecided()
    for n, r in o.props.items():
        total += r['paths'] + len(r['failures']) + bool(r['why'])
        done += r['paths'] if not r['why'] else 0
        if r['failures'] or r['why']:
            und['lemmas over ' + n] = '; '.join(r['failures']) or r['why']
    bounded = sorted(set(und) | set(o.lost) | ({'everything'} if o.error else set()))
    mods = sorted({m for r in o.reports + o.lemmas for m in r['models']})
    executed = sorted({c for r in o.reports + o.lemmas for c in r['called']})
    out = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'proof' if not bounded and not fails else 'exploration',
        'coverage': {
            'obligations': total + s.total,
            'discharged': done + s.done,
            'checker_cmd': 'python3 engine/prove.py <MIR of leptos-mview-core> /repo',
            'trusted_base': trust.BASE,
            'functions_under_contract': rows,
            'lemmas_over_contracts': {n: dict(paths=r['paths'], failures=r['failures'], undecided=r['why'])
                                      for n, r in sorted(o.props.items())},
            'of_this_property': sorted(n for n, c in spec.CUTS.items() if prop in c.props),
            'functions_executed': executed,
            'library_functions_by_model': mods,
            'bounded_instead_of_proved': {n: str(und.get(n) or o.lost.get(n) or o.error) for n in bounded},
            'verifier_seconds': round(o.wall, 2),
            'implied_decisions_confirmed': s.summary(),
            'evaluations': tried,
            'distinct_nontrivial': res.counts['expanded'] + res.counts['reported'],
            'rule': 'replay of the contract of the whole macro on systematic families and a seeded grammar over the '
                    'constants of the code; non-trivial: lexes, and the contract decides it',
            'samples': res.samples or ['none'],
            'verdicts': dict(res.counts),
        },
        'assumptions': trust.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(mine) or len(fails),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(out, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
