"""Equality of a function of the repository with its reference specification, decided on
canonical value-numbering summaries of both."""
import fnmatch
import os
import re
import signal
import time
from . import load, run as R, interp as IP, terms as X, rand
from .terms import TRUE, FALSE, NONE, mk

HERE = load.HERE


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Pair:
    def __init__(self, spec, pattern, opts, line):
        self.spec, self.pattern, self.opts, self.line = spec, pattern, opts, line


def parse(path):
    """//= KEY-PATTERN [; option...]   before each reference function"""
    out = []
    pend = []
    for n, l in enumerate(open(path), 1):
        m = re.match(r'\s*//=\s*(.*)$', l)
        if m:
            parts = [x.strip() for x in m.group(1).split(' ;')]
            opts = {}
            for o in parts[1:]:
                k, _, v = o.partition('=')
                opts[k.strip()] = v.strip() or True
            if 'fn' in opts:
                out.append(Pair(opts['fn'], parts[0], opts, n))
                continue
            pend.append((parts[0], opts, n))
            continue
        if pend:
            m = re.match(r'^(?:template.*|inline )?\s*(?:[\w:<>,*&\s]+?)[\s&*](\w+|operator\S+)\(', l)
            if m:
                for p in pend:
                    out.append(Pair(m.group(1), p[0], p[1], p[2]))
                pend = []
    return out


_pat = {}


def match(prog, pattern, private=True):
    r = _pat.get((id(prog), pattern))
    if r is None:
        rx = re.compile(re.escape(pattern).replace(r'\*\*', '.*') + r'\Z')
        # a literal '*' of a type is written '\x2a' in patterns
        if pattern.startswith('spec::') and '(' not in pattern:
            rx = re.compile(re.escape(pattern) + r'\(.*')
        r = [k for k, f in prog.fns.items() if k.startswith('spec::') == pattern.startswith('spec::') and rx.match(k) and (f.get('body') or f.get('defaulted'))]
        _pat[(id(prog), pattern)] = r
    return r


def specfn(prog, name, key=None):
    r = [k for k in prog.fns if k.startswith('spec::%s(' % name) or k.startswith('spec::%s<' % name)]
    return r


UNDEF = X.mk('sym', '#undefined', 'o')


def under(cond, t):
    return X.and_(X.not_(cond), t)


def outcome(res, parts):
    th = {}
    for pc, ty, bases, store, line in res.throws:
        th[ty] = X.or_(th.get(ty, FALSE), pc)
    return {'returns': res.returns, 'throws': [(c, t) for t, c in th.items() if c is not FALSE], 'parts': parts}


class Verdict:
    def __init__(self, pair, key, status, **kw):
        self.pair, self.key, self.status = pair, key, status
        self.__dict__.update(kw)


def pick(prog, pair):
    keys = match(prog, pair.pattern)
    return keys


def compare(prog, key, speckey, opts, n=60, seed=1, tlimit=40, rlimit=8.0, maxlen=4):
    """-> (status, info).  status: equal, same, separated, unknown"""
    f, s = prog.fns[key], prog.fns[speckey]
    isctor = f.get('kind') == 'ctor'
    meth = bool(f.get('cls')) and not f.get('mstatic')
    cls = opts.get('cls')
    maxlen = int(opts.get('maxlen') or maxlen)
    tlimit = max(tlimit, int(opts.get('time') or 0))
    opq = opts.get('opaque')
    opaque = None
    # classes whose objects are taken as a whole; their members are uninterpreted
    prog.whole = set(x.strip() for x in (opts.get('whole') or '').split('|') if x.strip())
    if prog.whole:
        opq = '|'.join(([opq] if opq else []) + [c + '::*' for c in sorted(prog.whole)])
    if opq:
        rx = re.compile('|'.join(re.escape(x.strip()).replace(r'\*', '.*') for x in opq.split('|')))

        def opaque(k, rx=rx):
            return bool(rx.match(k))
    try:
        with limit(tlimit):
            a = R.run(prog, key, cls=cls, opaque=opaque)
            names = None
            if meth and not isctor:
                names = ['self'] + ['a%d' % i for i in range(len(f['params']))]
            args = None
            if cls and meth and not isctor:
                args = [lambda I: R.fresh(I, cls, 'self', cls)]
            b = R.run(prog, speckey, names=names, opaque=opaque, args=args)
    except IP.Undecided as ex:
        return 'unknown', {'why': 'undecided: %s' % ex}
    except X.Blowup:
        return 'unknown', {'why': 'expression too large'}
    except Timeout:
        return 'unknown', {'why': 'time'}
    except RecursionError:
        return 'unknown', {'why': 'recursion'}
    pa, pb = {}, {}
    what = opts.get('compare')
    sret = s['rt'] != 'void'
    off = 1 if meth and not isctor else 0
    want = []
    if what:
        want = [w.strip() for w in what.split(',')]
    else:
        if isctor:
            want.append('this')
        else:
            if sret:
                want.append('ret')
            if meth and not IP.isconst(s['params'][0]['t']) and IP.isref(s['params'][0]['t']):
                want.append('this')
        for i, p in enumerate(f['params'] if not (key.startswith('spec::lhs_') and sret) else []):
            if IP.isref(p['t']) and not IP.isconst(p['t']) and not p['t'].endswith('&&'):
                want.append('arg%d' % i)
    for w in want:
        if w == 'ret':
            pa[w], pb[w] = a.ret, b.ret
        elif w == 'this':
            pa[w] = a.this
            pb[w] = b.ret if isctor else b.args[0]
        elif w.startswith('arg'):
            i = int(w[3:])
            pa[w], pb[w] = a.args[i], b.args[i + off]
    oa, ob = outcome(a, pa), outcome(b, pb)
    I = b.I
    IP.INTERP[0] = I
    # cases the reference leaves open
    U = FALSE
    for c, t in ob['throws']:
        if t.endswith('Unspecified'):
            U = X.or_(U, c)
    info = {'lines': len({l for l in a.I.lines}) if hasattr(a.I, 'lines') else None, 'parts': want}
    try:
        with limit(tlimit):
            eqv = under(U, oa['returns']) is under(U, ob['returns'])
            ta = {t: under(U, c) for c, t in oa['throws']}
            tb = {t: under(U, c) for c, t in ob['throws'] if not t.endswith('Unspecified')}
            for t in set(ta) | set(tb):
                x, y = ta.get(t, under(U, FALSE)), tb.get(t, under(U, FALSE))
                if x is not y:
                    eqv = False
            if eqv:
                live = X.and_(ob['returns'], X.not_(U))
                for w in want:
                    x, y = pa[w], pb[w]
                    if x is y:
                        continue
                    if X.ite(live, x, UNDEF) is not X.ite(live, y, UNDEF):
                        eqv = False
            if eqv and not any(X.tops(x) for x in pa.values()):
                return 'equal', info
    except (Timeout, X.Blowup, RecursionError):
        pass
    try:
        with limit(rlimit + 30):
            st, d = rand.separate(I, ob, oa, n=n, seed=seed, maxlen=maxlen, time_limit=rlimit,
                                  total='totalmaps' in opts)
    except (Timeout, RecursionError, X.Blowup):
        return 'unknown', dict(info, why='interpretation time')
    except IP.Undecided as ex:
        return 'unknown', dict(info, why=str(ex))
    if st == 'separated':
        extra = libcalls(oa) - libcalls(ob)
        if extra:
            # a function of the standard library the interpretation knows nothing of
            return 'unknown', dict(info, why='not modelled: ' + ', '.join(sorted(extra))[:200])
        info['mismatch'] = d
        info['a'], info['b'] = a, b
        return st, info
    if st == 'same':
        info['tried'] = d
        return st, info
    info['why'] = d
    return st, info


def libcalls(o):
    """functions of the standard library left uninterpreted in an outcome"""
    seen, out, todo = set(), set(), [o]
    while todo:
        t = todo.pop()
        if isinstance(t, dict):
            todo.extend(t.values())
        elif isinstance(t, (tuple, list)):
            todo.extend(t)
        elif isinstance(t, X.T if hasattr(X, 'T') else type(X.ONE)):
            if t not in seen:
                seen.add(t)
                if t.op == 'call' and isinstance(t.a[0], str):
                    n = t.a[0].split(':', 1)[1] if t.a[0][:3] in ('arg', 'thi') and ':' in t.a[0] else t.a[0]
                    n = n.split('(')[0].split('<')[0]
                    if n.startswith(('std::', '__gnu_cxx::')):
                        out.add(n)
                todo.extend(t.a)
    return out


def firstdiff(a, b, path=''):
    """path of the first difference between two interpreted values"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] == 'rec' and b[0] == 'rec' and a[1] == b[1]:
            for (n, x), (m, y) in zip(a[2:], b[2:]):
                if not rand.same(x, y):
                    return firstdiff(x, y, path + '.' + n)
        elif a[0] == 'own' and b[0] == 'own':
            return firstdiff(a[1], b[1], path)
        elif not isinstance(a[0], str) and not isinstance(b[0], str):
            if len(a) != len(b):
                return path + '.size', len(a), len(b)
            for i, (x, y) in enumerate(zip(a, b)):
                if not rand.same(x, y):
                    return firstdiff(x, y, path + '[%d]' % i)
    if isinstance(a, tuple) and isinstance(b, tuple) and (not a or not b):
        return path + '.size', len(a), len(b)
    return path, a, b
