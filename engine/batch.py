"""The concrete side: replays the contracts on real inputs through the real
code (inside rustc).  Used to give a failed obligation a failing input, and as
the bounded stand-in for code the verifier cannot reach."""
import collections
import glob
import multiprocessing
import os
import re
import sys
import conc
import gen
import tables
import replay


def constants():
    """string constants of the code under check that look like names (the tag
    tables excepted: every tag is tried anyway)"""
    out = set()
    for p in sorted(glob.glob(replay.REPO + '/leptos-mview-core/src/**/*.rs', recursive=True)):
        s = open(p).read()
        s = re.sub(r'//[^\n]*', '', s)
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', s):
            if re.fullmatch(r'[A-Za-z_][\w-]*', m.group(1)) and len(m.group(1)) < 24:
                out.add(m.group(1))
        out |= set(re.findall(r'custom_keyword!\((\w+)\)', s))
    return sorted(out - tables.SVG - tables.MATH)


def texts():
    """other short texts of the code"""
    out = set()
    for p in sorted(glob.glob(replay.REPO + '/leptos-mview-core/src/**/*.rs', recursive=True)):
        s = re.sub(r'//[^\n]*', '', open(p).read())
        s = re.sub(r'(?<!\\)\\u\{([0-9a-fA-F]{1,6})\}', lambda m: chr(int(m.group(1), 16)), s)
        for m in re.finditer(r'"((?:[^"\\\n]|\\[nt"\\])*)"|\'([^\'\\\n])\'', s):
            t = m.group(1) if m.group(1) is not None else m.group(2)
            if 0 < len(t) <= 12 and not re.fullmatch(r'[A-Za-z_][\w-]*', t):
                out.add(t.replace('"', '\\"') if m.group(1) is None else t)
    return sorted(out)


def lengths():
    """names as long as the numbers in the code"""
    out, ns = [], set()
    for p in sorted(glob.glob(replay.REPO + '/leptos-mview-core/src/**/*.rs', recursive=True)):
        s = re.sub(r'//[^\n]*|"([^"\\]|\\.)*"', '', open(p).read())
        ns |= {int(x) for x in re.findall(r'(?<![\w.])(\d{1,3})(?![\w.])', s) if 3 < int(x) < 200}
    for n in sorted(ns)[:12]:
        for k in (n - 1, n, n + 1):
            out += [(b * 40)[:k] for b in ('aBcDefGhij', 'Abcdefghij', 'aB-cd-eFgh')] + ['aria-' + ('aB-cd-eFgh' * 40)[:max(k - 5, 1)]]
    return out


def tokens():
    """the tokens the code mentions, in `Token![..]` and as characters"""
    out = set()
    for p in sorted(glob.glob(replay.REPO + '/leptos-mview-core/src/**/*.rs', recursive=True)):
        s = re.sub(r'//[^\n]*', '', open(p).read())
        out |= set(re.findall(r'Token!\[([^\]\s]+)\]', s)) | set(re.findall(r"'([^\w\s\\'\"(){}\[\]])'", s))
    return sorted(out, key=lambda t: (t in gen.JUNK, t))


def cases(seed, n, extra=()):
    """`extra`: names that failed obligations are about"""
    consts = constants()
    cs = gen.systematic(consts, list(dict.fromkeys(list(extra) + lengths())), tokens(), texts())
    g = gen.Gen(seed, consts)
    cs += [g.case() for _ in range(n)]
    return cs + gen.layouts(cs)


class Result:
    def __init__(self):
        self.counts = collections.Counter()
        self.bad = []           # (case, verdict)
        self.samples = []
        self.n = 0


_H = None
_DEATHS = multiprocessing.Value('i', 0)


def _chunk(args):
    """one chunk of cases: real code, then the contracts"""
    sys.setrecursionlimit(20000)
    cs, timeout = args
    counts = collections.Counter()
    bad, samples = [], []
    if _DEATHS.value >= 4:
        return 0, counts, bad, samples
    for c, r, v in _H.judge(cs, timeout):
        if isinstance(v, dict):
            counts[v['kind']] += 1
            if v.get('dead'):
                _DEATHS.value += 1
            bad.append((c, v))
            continue
        k = v or ('reported' if conc.is_error(r['out']) else 'expanded')
        counts[k] += 1
        if k == 'expanded' and len(samples) < 1 and len(c) > 40 and len(c) % 7 == 3:
            samples.append({'in': c, 'out': conc.show(r['out'])[:600]})
    return len(cs), counts, bad, samples


def history(h, res):
    """does a wrong expansion depend on what was expanded before?"""
    for c, v in sorted(res.bad, key=lambda x: (len(x[0]), x[0]))[:6]:
        if v.get('dead') or v['kind'] == 'unstable':
            continue
        alone = h.judge([c])[0][2]
        if not isinstance(alone, dict) or alone.get('got') != v.get('got') or alone['kind'] != v['kind']:
            v['labels'] = set(v['labels']) | {'C05'}
            v['detail'] += ' (not when it is the only input: it depends on earlier invocations)'


def env_names():
    """names of environment variables the code may mean"""
    out = set()
    for p in sorted(glob.glob(replay.REPO + '/leptos-mview-*/src/**/*.rs', recursive=True)):
        s = re.sub(r'//[^\n]*', '', open(p).read())
        if re.search(r'\benv\b', s):
            out |= set(re.findall(r'"([A-Za-z_][A-Za-z0-9_]{2,40})"', s))
    return sorted(out)


def environment(h, cs):
    """the expansions with variables of the environment set, against those
    without; [] if the code knows no such variables"""
    names = env_names()
    if not names:
        return []
    out = []
    cs = [c for c in cs if '__none' not in c]
    cs = cs[::max(1, len(cs) // 3000)]
    plain = h.run(cs)
    for val in ('1', '0', 'true'):
        old = {n: os.environ.get(n) for n in names}
        os.environ.update({n: val for n in names if n not in KEEP})
        try:
            recs = h.run(cs)
        finally:
            for n, o in old.items():
                if n in KEEP:
                    continue
                if o is None:
                    os.environ.pop(n, None)
                else:
                    os.environ[n] = o
        for c, a, b in zip(cs, plain, recs):
            if a and b and a.get('out') != b.get('out'):
                out.append((c, dict(kind='environment', labels={'C05'}, got=conc.show(b.get('out') or []),
                                    expected=conc.show(a.get('out') or []),
                                    detail='the expansion depends on the environment (variables set to %r)' % val)))
    return out


KEEP = {'PATH', 'HOME', 'RUSTUP_TOOLCHAIN', 'RUSTUP_HOME', 'CARGO_HOME', 'MVIEW_OUT', 'TMPDIR', 'LD_LIBRARY_PATH'}


def run(h, cs, timeout=20):
    global _H
    _H = h
    h.build()
    res = Result()
    n = len(cs)
    # equal mixes: every 24th case, so that the chunks take equally long
    k = 24 if n > 2000 else 1
    jobs = [(cs[i::k], timeout) for i in range(k)]
    if k == 1:
        parts = map(_chunk, jobs)
    else:
        pool = multiprocessing.get_context('fork').Pool(8)
        parts = pool.imap(_chunk, jobs)
    for m, counts, bad, samples in parts:
        res.n += m
        res.counts.update(counts)
        res.bad += bad
        res.samples = (res.samples + samples)[:3]
    if k > 1:
        pool.close()
        pool.join()
    history(h, res)
    # a well-formed input that does not expand at all breaks everything it
    # should have expanded to: attributed on the shortest such inputs
    soft = sorted((x for x in res.bad if x[1].get('soft')), key=lambda x: (len(x[0]), x[0]))
    for c, v in soft[:8]:
        v['labels'] = set(v['labels']) | set(v['soft'])
    return res
