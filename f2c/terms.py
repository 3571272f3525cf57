"""Canonical value terms (value numbering domain).

Values are hash-consed.  Numbers are polynomials over atoms, conditionals are ordered
decision nodes whose leaves are ite-free, sequences are concatenations of segments,
records are pushed outside of conditionals.  Two computations with the same canonical
term compute the same value whatever the statements that built it."""
from fractions import Fraction
import math

_tab = {}
_memo = {}


class T:
    __slots__ = ('op', 'a', 'id', '_sk', '_fv', '_top', '_bh', '_ln')

    def __repr__(self):
        return show(self, 6)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab) + 1
        t._sk = None
        t._ln = False
        t._fv = None
        t._top = None
        t._bh = None
        _tab[k] = t
    return t


class Blowup(Exception):
    pass


TRUE = mk('true')
FALSE = mk('false')
NULL = mk('null')
VOID = mk('void')
NONE = mk('dc')  # don't care


def num(v):
    if isinstance(v, T):
        return v
    return mk('num', Fraction(v))


ZERO = num(0)
ONE = num(1)
PI = mk('sym', 'PI', 'r')


def flt(s):
    """Literal as written by clang; multiples of pi are recognised."""
    v = float(s)
    if v in (float('inf'), float('-inf')):
        return mk('sym', 'INF' if v > 0 else 'NINF', 'r')
    for k, c in ((math.pi, PI),):
        if v != 0:
            q = Fraction(v / k).limit_denominator(720)
            if q != 0 and abs(v - float(q) * k) <= 4e-15 * max(1.0, abs(v)) and q.denominator <= 720 and abs(q) < 100 and abs(q.numerator) < 1000:
                if abs(float(q) * k - v) <= abs(v) * 1e-14 and q.denominator in (1, 2, 3, 4, 6, 8, 12, 180, 360):
                    return mul(num(q), c)
    return num(Fraction(s) if 'E' not in s.upper() else Fraction(v).limit_denominator(10**18) if abs(v) > 1e-17 and abs(v) < 1 else Fraction(v))


def bool_(b):
    return TRUE if b else FALSE


def top(reason):
    return mk('top', reason)


# ---------------------------------------------------------------- free tops / vars
def children(t):
    """sub-terms of t"""
    op = t.op
    if op == 'str':
        for s in t.a:
            if s[0] != 'c':
                yield s[1]
        return
    if op == 'poly':
        for c, m in t.a:
            for at, e in m:
                yield at
    elif op == 'rec':
        for n, v in t.a[1]:
            yield v
    elif op == 'list' or op == 'str':
        for s in t.a:
            yield s[1] if isinstance(s[1], T) else s[1]
    elif op == 'ptr':
        for p in t.a[1]:
            if len(p) > 1 and isinstance(p[1], T):
                yield p[1]
    elif op in ('mit', 'alias', 'bins'):
        for p in t.a[1]:
            if len(p) > 1 and isinstance(p[1], T):
                yield p[1]
        if op == 'mit':
            yield t.a[2]
    elif op == 'iter':
        for x in t.a:
            if isinstance(x, T):
                yield x
            elif isinstance(x, tuple):
                for p in x[1]:
                    if isinstance(p, tuple) and len(p) > 1 and isinstance(p[1], T):
                        yield p[1]
    elif op == 'lam':
        return
    else:
        for x in t.a:
            if isinstance(x, T):
                yield x
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        yield y


def fv(t):
    """set of 'var' terms (loop variables, phis) occurring in t"""
    r = t._fv
    if r is None:
        if t.op == 'var':
            r = frozenset((t,))
        else:
            s = set()
            for c in children(t):
                s |= fv(c)
            r = frozenset(s)
        t._fv = r
    return r


def tops(t):
    r = t._top
    if r is None:
        if t.op == 'top':
            r = frozenset((t,))
        else:
            s = set()
            for c in children(t):
                s |= tops(c)
            r = frozenset(s)
        t._top = r
    return r


def bheight(t):
    """1 + the largest bound-variable index inside t (0 when there is none)"""
    r = t._bh
    if r is None:
        r = 0
        if t.op == 'bv':
            r = t.a[0] + 1
        else:
            for c in children(t):
                h = bheight(c)
                if h > r:
                    r = h
        t._bh = r
    return r


def var(name, kind):
    return mk('var', name, kind)


def sym(name, kind):
    return mk('sym', name, kind)


# ---------------------------------------------------------------- decision nodes
def is_ite(t):
    return t.op == 'ite'


def skel(t):
    """atoms tested in the decision skeleton of t"""
    if t.op != 'ite':
        return frozenset()
    if t._sk is None:
        t._sk = skel(t.a[1]) | skel(t.a[2]) | {t.a[0]}
    return t._sk


_linkeys = {}


def _lin(atom):
    r = atom._ln
    if r is False:
        r = _lin_(atom)
        if r is not None:
            r = (_linkeys.setdefault(r[0], len(_linkeys)), r[1], r[2])
        atom._ln = r
    return r


def _lin_(atom):
    """(key, sign, threshold) of a numeric atom  key*sign + c REL 0"""
    p = atom.a[0]
    items = _items(p)
    const = Fraction(0)
    rest = []
    for m, c in items:
        if m == ():
            const = c
        else:
            rest.append((m, c))
    if not rest:
        return None
    rest.sort(key=lambda x: _mkey(x[0]))
    lead = rest[0][1]
    key = tuple((m, c / abs(lead)) for m, c in rest)
    if lead < 0:
        key = tuple((m, -c) for m, c in key)
    s = 1 if lead > 0 else -1
    return key, s, const / abs(lead)


def implied(a, av, b):
    """value of atom b known when atom a has value av (pairwise), else None"""
    if a is b:
        return av
    if a.op not in ('lt', 'eq0') or b.op not in ('lt', 'eq0'):
        if a.op == 'eqv' and b.op == 'eqv' and av:
            # x==c1 implies x!=c2
            sa, sb = set(a.a), set(b.a)
            com = sa & sb
            if com:
                (ra,) = (sa - com) or {None}
                (rb,) = (sb - com) or {None}
                if ra is not None and rb is not None and ra.op in ('str', 'num') and rb.op in ('str', 'num') and isconststr(ra) and isconststr(rb) and ra is not rb:
                    return False
        return None
    la, lb = _lin(a), _lin(b)
    if la is None or lb is None or la[0] != lb[0]:
        return None
    isint = a.a[1]
    # X = key.  a: s*X + c < 0 (or == 0)
    lo, hi, lo_s, hi_s = None, None, False, False  # X in (lo,hi), strictness
    _, s, c = la
    if a.op == 'eq0':
        if not av:
            # X != -c*s
            if b.op == 'eq0':
                _, s2, c2 = lb
                if -c2 * s2 == -c * s:
                    return False
            return None
        lo = hi = -c * s
    elif s > 0:   # X < -c
        if av:
            hi, hi_s = -c, True
        else:
            lo = -c
    else:         # -X + c < 0 : X > c
        if av:
            lo, lo_s = c, True
        else:
            hi = c
    if isint:
        if hi is not None and hi_s:
            hi, hi_s = math.ceil(hi) - 1, False
        if lo is not None and lo_s:
            lo, lo_s = math.floor(lo) + 1, False
    _, s, c = lb
    if b.op == 'eq0':
        v = -c * s
        if hi is not None and (v > hi or (v == hi and hi_s)):
            return False
        if lo is not None and (v < lo or (v == lo and lo_s)):
            return False
        if lo is not None and lo == hi and v == lo:
            return True
        return None
    if s > 0:   # X < -c ?
        th = -c
        if hi is not None and (hi < th or (hi == th and hi_s)):
            return True
        if lo is not None and lo >= th:
            return False
    else:       # X > c ?
        th = c
        if lo is not None and (lo > th or (lo == th and lo_s)):
            return True
        if hi is not None and hi <= th:
            return False
    return None


def restrict(t, atom, val):
    """simplify the skeleton of t knowing atom==val"""
    if t.op != 'ite':
        return t
    k = ('restrict', t, atom, val)
    r = _memo.get(k)
    if r is not None:
        return r
    rel = False
    for b in skel(t):
        if b is atom or implied(atom, val, b) is not None:
            rel = True
            break
    if not rel:
        _memo[k] = t
        return t
    b, hi, lo = t.a
    iv = implied(atom, val, b)
    if iv is True:
        r = restrict(hi, atom, val)
    elif iv is False:
        r = restrict(lo, atom, val)
    else:
        h2, l2 = restrict(hi, atom, val), restrict(lo, atom, val)
        r = h2 if h2 is l2 else mk('ite', b, h2, l2)
    _memo[k] = r
    return r


def node(atom, hi, lo):
    if hi is lo:
        return hi
    hi = restrict(hi, atom, True)
    lo = restrict(lo, atom, False)
    if hi is lo:
        return hi
    # boundary cases where both branches agree do not count as a difference
    if atom.op == 'eq0':
        if _agree(hi, lo, atom.a[0]):
            return lo
    elif atom.op == 'lt' and atom.a[1]:
        p1 = add(atom.a[0], ONE)
        if _agree(hi, lo, p1):
            r = lt0(p1)
            return ite(r, hi, lo)
    return mk('ite', atom, hi, lo)


def _agree(hi, lo, p):
    """hi == lo follows from p == 0"""
    if hi.op == 'ite' or lo.op == 'ite':
        if hi.op == 'ite' and lo.op == 'ite':
            return hi.a[0] is lo.a[0] and _agree(hi.a[1], lo.a[1], p) and _agree(hi.a[2], lo.a[2], p)
        if lo.op == 'ite':
            return _agree(hi, lo.a[1], p) and _agree(hi, lo.a[2], p)
        return _agree(hi.a[1], lo, p) and _agree(hi.a[2], lo, p)
    if hi is lo:
        return True
    if kind(hi) not in ('i', 'r') or kind(lo) not in ('i', 'r'):
        return False
    d = _add(hi, _mul(num(-1), lo))
    if d.op == 'ite':
        return False
    a, b = dict(_items(d)), dict(_items(p))
    if set(a) != set(b):
        return False
    q = None
    for m in a:
        x = a[m] / b[m]
        if q is None:
            q = x
        elif q != x:
            return False
    return True


def topatom(*ts):
    best = None
    for t in ts:
        if t.op == 'ite':
            a = t.a[0]
            if best is None or a.id < best.id:
                best = a
    return best


def cof(t, atom):
    if t.op == 'ite' and t.a[0] is atom:
        return t.a[1], t.a[2]
    return t, t


LIMIT = 400000


def ite(c, a, b):
    """if c then a else b, for any boolean term c"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a.op == 'dc' and b.op != 'dc':
        return b
    if b.op == 'dc':
        return a
    k = ('ite', c, a, b)
    r = _memo.get(k)
    if r is not None:
        return r
    if len(_memo) > LIMIT * 10:
        raise Blowup()
    if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and \
            all(x[0] == y[0] for x, y in zip(a.a[1], b.a[1])):
        r = mk('rec', a.a[0], tuple((x[0], ite(c, x[1], y[1])) for x, y in zip(a.a[1], b.a[1])))
    elif a.op == 'own' and b.op == 'own':
        r = mk('own', ite(c, a.a[0], b.a[0]))
    elif c.op == 'top':
        r = top('cond:' + str(c.a[0]))
    else:
        if c.op != 'ite':
            c = asbool(c)
            if c.op != 'ite':
                return ite(c, a, b)
        at = topatom(c, a, b)
        c1, c0 = cof(c, at)
        a1, a0 = cof(a, at)
        b1, b0 = cof(b, at)
        c1, a1, b1 = (restrict(x, at, True) for x in (c1, a1, b1))
        c0, a0, b0 = (restrict(x, at, False) for x in (c0, a0, b0))
        hi, lo = ite(c1, a1, b1), ite(c0, a0, b0)
        if hi.op in ('rec', 'own') and lo.op == hi.op and not (hi is lo):
            r = ite(mk('ite', at, TRUE, FALSE), hi, lo) if (c.op != 'ite' or c.a[0] is not at or c.a[1] is not TRUE or c.a[2] is not FALSE) else mk('ite', at, hi, lo)
        else:
            r = node(at, hi, lo)
    _memo[k] = r
    return r


def asbool(t):
    """t as a boolean term"""
    if t.op in ('true', 'false', 'top'):
        return t
    if t.op == 'ite':
        if t.a[1].op in ('true', 'false', 'ite', 'top') and t.a[2].op in ('true', 'false', 'ite', 'top'):
            return t
        return lift('asbool', asbool, t)
    if t.op in ('num', 'poly'):
        return not_(eq(t, ZERO))
    if t.op in ('lt', 'eq0', 'eqv', 'batom'):
        return mk('ite', t, TRUE, FALSE)
    if t.op in ('sym', 'var', 'bv', 'app', 'lf', 'cv', 'len', 'sum', 'first', 'fold') and kind(t) in ('i', 'r'):
        return not_(eq(t, ZERO))
    if t.op in ('sym', 'var', 'bv', 'app', 'any', 'lf', 'cv', 'fold'):
        return mk('ite', t, TRUE, FALSE)
    if t.op in ('ptr', 'own', 'lam', 'str', 'iter'):
        return TRUE
    if t.op in ('null', 'void', 'dc'):
        return FALSE
    return mk('ite', mk('app', 'truth', 'b', (t,)), TRUE, FALSE)


def lift(name, f, *args):
    """apply f leaf-wise below the decision nodes of its arguments"""
    at = topatom(*args)
    if at is None:
        for x in args:
            if x.op == 'top':
                return x
        return f(*args)
    k = (name,) + args
    r = _memo.get(k)
    if r is not None:
        return r
    if len(_memo) > LIMIT * 10:
        raise Blowup()
    cs = [cof(x, at) for x in args]
    h = lift(name, f, *[restrict(x[0], at, True) for x in cs])
    l = lift(name, f, *[restrict(x[1], at, False) for x in cs])
    r = ite(mk('ite', at, TRUE, FALSE), h, l)
    _memo[k] = r
    return r


def not_(c):
    return ite(asbool(c), FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, asbool(c), FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, asbool(c))
    return r


# ---------------------------------------------------------------- numbers
INTFNS = {'bit&', 'bit|', 'bit^', 'bit<<', 'bit>>', 'len', 'idiv', 'imod', 'trunc', 'count', 'first', 'lround'}


def kind(t):
    op = t.op
    if op == 'num':
        return 'i' if t.a[0].denominator == 1 else 'r'
    if op in ('sym', 'var', 'bv'):
        return t.a[1]
    if op == 'app':
        return t.a[1]
    if op == 'len' or op == 'first':
        return 'i'
    if op == 'sum':
        return kind(t.a[1])
    if op == 'poly':
        for c, m in t.a:
            if c.denominator != 1:
                return 'r'
            for at, e in m:
                if e < 0 or kind(at) != 'i':
                    return 'r'
        return 'i'
    if op == 'ite':
        k1, k2 = kind(t.a[1]), kind(t.a[2])
        return k1 if k1 == k2 else 'r' if 'r' in (k1, k2) else k1
    if op in ('true', 'false', 'lt', 'eq0', 'eqv', 'batom', 'any'):
        return 'b'
    if op == 'fold':
        return t.a[0]
    return 'o'


def _mkey(m):
    return tuple((at.id, e) for at, e in m)


def _items(t):
    """[(monomial, coef)]"""
    if t.op == 'num':
        return [((), t.a[0])] if t.a[0] != 0 else []
    if t.op == 'poly':
        return [(m, c) for c, m in t.a]
    return [(((t, 1),), Fraction(1))]


def _frompoly(d):
    items = [(c, m) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        c, m = items[0]
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda x: _mkey(x[1]))
    if len(items) > 400:
        # too long to normalise further: an opaque sum of shorter ones
        return mk('app', 'rsum', 'r', tuple(mk('poly', *items[i:i + 200]) for i in range(0, len(items) - 1, 200) if len(items[i:i + 200]) > 1) +
                  ((_frompoly({items[-1][1]: items[-1][0]}),) if len(items) % 200 == 1 else ()))
    return mk('poly', *items)


def tonum(t):
    """numeric view: booleans become 0/1"""
    if t.op in ('true', 'lt', 'eq0', 'eqv', 'batom', 'any') or t.op == 'false':
        return ite(asbool(t), ONE, ZERO)
    if t.op == 'ite' and kind(t) == 'b':
        return lift('tonum', tonum, t)
    if t.op in ('sym', 'var', 'bv', 'app', 'lf', 'cv') and kind(t) == 'b':
        return ite(asbool(t), ONE, ZERO)
    return t


def _add(a, b):
    for x in (a, b):
        if x.op in ('rec', 'list', 'str', 'own', 'ptr', 'null', 'void', 'lam', 'dc'):
            return top('add of ' + x.op)
    d = {}
    for m, c in _items(a):
        d[m] = d.get(m, 0) + c
    for m, c in _items(b):
        d[m] = d.get(m, 0) + c
    return _frompoly(d)


def add(a, b):
    return lift('add', _add, tonum(a), tonum(b))


def _mulmono(m1, m2):
    d = {}
    for at, e in m1 + m2:
        d[at] = d.get(at, 0) + e
    extra = []
    out = []
    for at, e in d.items():
        if e == 0:
            continue
        if at.op == 'app' and at.a[0] == 'sqrt' and e >= 2:
            extra.append((at.a[2][0], e // 2))
            e = e % 2
            if e == 0:
                continue
        out.append((at, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out), extra


def _mul(a, b):
    for x in (a, b):
        if x.op in ('rec', 'list', 'str', 'own', 'ptr', 'null', 'void', 'lam', 'dc'):
            return top('mul of ' + x.op)
    d = {}
    ex = []
    if a.op == 'poly' and b.op == 'poly' and len(a.a) * len(b.a) > 400:
        return mk('app', 'rmul', 'r', (a, b) if a.id < b.id else (b, a))
    for m1, c1 in _items(a):
        for m2, c2 in _items(b):
            m, extra = _mulmono(m1, m2)
            if extra:
                ex.append((m, c1 * c2, extra))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = _frompoly(d)
    for m, c, extra in ex:
        t = _frompoly({m: c})
        for p, e in extra:
            for _ in range(e):
                t = mul(t, p)
        r = add(r, t)
    return r


def mul(a, b):
    return lift('mul', _mul, tonum(a), tonum(b))


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _inv(a):
    if a.op == 'num':
        return mk('num', 1 / a.a[0]) if a.a[0] != 0 else app('inv0', 'r')
    it = _items(a)
    if len(it) == 1:
        m, c = it[0]
        return _frompoly({tuple((at, -e) for at, e in m): 1 / c})
    it.sort(key=lambda x: _mkey(x[0]))
    lead = it[0][1]
    p = _frompoly({m: c / lead for m, c in it})
    return _frompoly({((app('inv', 'r', p), 1),): 1 / lead})


def div(a, b):
    return mul(a, lift('inv', _inv, tonum(b)))


def app(name, k, *args):
    """uninterpreted function application (below decision nodes)"""
    if any(x.op == 'ite' for x in args) or any(x.op == 'top' for x in args):
        return lift('app:%s:%s' % (name, k), lambda *xs: mk('app', name, k, tuple(xs)), *args)
    return mk('app', name, k, tuple(args))


def appraw(name, k, *args):
    return mk('app', name, k, tuple(args))


def fn1(name, t):
    return lift('fn1' + name, lambda x: _fn1(name, x), tonum(t))


def _lead(t):
    it = _items(t)
    it.sort(key=lambda x: _mkey(x[0]))
    return it[0][1] if it else Fraction(0)


def _fn1(name, x):
    if name == 'fabs':
        if x.op == 'num':
            return num(abs(x.a[0]))
        return ite(lt0(x), neg(x), x)
    if name in ('sin', 'tan', 'asin', 'atan') and x.op != 'num' and _lead(x) < 0:
        return neg(mk('app', name, 'r', (neg(x),)))
    if name == 'cos' and x.op != 'num' and _lead(x) < 0:
        x = neg(x)
    if name == 'sqrt' and x.op == 'num':
        n, d = x.a[0].numerator, x.a[0].denominator
        if n >= 0:
            r, q = math.isqrt(n), math.isqrt(d)
            if r * r == n and q * q == d:
                return num(Fraction(r, q))
    if name in ('sin', 'cos') and x is ZERO:
        return ZERO if name == 'sin' else ONE
    if name == 'trunc':
        if x.op == 'num':
            return num(int(x.a[0]))
        if kind(x) == 'i':
            return x
        return mk('app', 'trunc', 'i', (x,))
    if name in ('floor', 'ceil', 'round'):
        if kind(x) == 'i':
            return x
        if x.op == 'num':
            return num({'floor': math.floor, 'ceil': math.ceil, 'round': lambda v: math.floor(v + Fraction(1, 2)) if v >= 0 else -math.floor(-v + Fraction(1, 2))}[name](x.a[0]))
    return mk('app', name, 'r', (x,))


def lt0(p):
    return lift('lt0', _lt0, tonum(p))


def _nonneg(t):
    """syntactically non-negative"""
    if t.op == 'num':
        return t.a[0] >= 0
    if t.op in ('len', 'first') or (t.op == 'app' and t.a[0] in ('sqrt', 'fabs', 'dist', 'count', 'usym')):
        return True
    if t.op == 'bv' and t.a[1] == 'i' and len(t.a) == 2:
        return True       # an index, not an accumulated value
    if t.op == 'var' and t.a[1] == 'i' and t.a[0].startswith('ix'):
        return True
    if t.op in ('sym', 'var') and t.a[0].startswith('u:'):
        return True
    if t.op == 'lf' and t.a[2][-1:] == ('#u',):
        return True
    if t.op == 'poly':
        return all(c > 0 and all(_nonneg(at) and e > 0 or e % 2 == 0 for at, e in m) for c, m in t.a)
    return False


def _lt0(p):
    if p.op == 'num':
        return bool_(p.a[0] < 0)
    if p.op not in ('poly', 'sym', 'var', 'bv', 'app', 'len', 'sum', 'first', 'fold', 'lf', 'cv'):
        return top('lt of ' + p.op)
    if _nonneg(p):
        return FALSE
    it = _items(p)
    it.sort(key=lambda x: _mkey(x[0]))
    # scale by positive constant
    from math import gcd
    isint = kind(p) == 'i'
    nc = [(m, c) for m, c in it if m != ()]
    const = sum((c for m, c in it if m == ()), Fraction(0))
    lead = abs(nc[0][1])
    if isint:
        g = 0
        for m, c in nc:
            g = gcd(g, abs(c.numerator))
        # sum g*x + c < 0  <=> x + c/g < 0 <=> x < -c/g <=> x <= ceil(-c/g)-1
        th = math.ceil(Fraction(-const, g))  # x < th
        nc = [(m, c / g) for m, c in nc]
        if nc[0][1] < 0:
            # -y < th <=> y > -th <=> not (y <= -th) <=> not (y < -th+1)
            y = _frompoly({m: -c for m, c in nc})
            return not_(_ltatom(y, Fraction(-th + 1), True))
        return _ltatom(_frompoly(dict(nc)), Fraction(th), True)
    d = {m: c / lead for m, c in it}
    pp = _frompoly(d)
    if nc[0][1] < 0:
        # p<0 with p=-q: q>0 : not(q<0) and not(q==0)
        q = neg(pp)
        return ite(mk('ite', mk('lt', q, False), TRUE, FALSE), FALSE,
                   ite(mk('ite', mk('eq0', q, False), TRUE, FALSE), FALSE, TRUE))
    return mk('ite', mk('lt', pp, False), TRUE, FALSE)


def _ltatom(y, th, isint):
    # y < th, y without constant
    if _nonneg(y) and th <= 0:
        return FALSE
    return mk('ite', mk('lt', add(y, num(-th)), isint), TRUE, FALSE)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return not_(lt(b, a))


NUMK = ('num', 'poly', 'sym', 'var', 'bv', 'app', 'len', 'sum', 'first', 'fold')


def isconststr(t):
    return t.op == 'str' and len(t.a) <= 1 and all(s[0] == 'c' for s in t.a) or t.op == 'num'


def _eq(a, b):
    if a is b:
        return TRUE
    ka, kb = kind(a), kind(b)
    if ka in ('i', 'r') and kb in ('i', 'r'):
        p = _add(a, _mul(num(-1), b))
        if p.op == 'ite':
            return eq(p, ZERO)
        if p.op == 'num':
            return bool_(p.a[0] == 0)
        it = _items(p)
        it.sort(key=lambda x: _mkey(x[0]))
        nc = [(m, c) for m, c in it if m != ()]
        lead = nc[0][1]
        q = _frompoly({m: c / lead for m, c in it})
        isint = kind(p) == 'i'
        if isint and _nonneg(q) and any(m == () for m, c in it):
            return FALSE
        if isint:
            # len == 0  <=>  len < 1
            y = _frompoly({m: c / lead for m, c in nc})
            const = sum((c / lead for m, c in it if m == ()), Fraction(0))
            if const == 0 and _nonneg(y):
                return _ltatom(y, Fraction(1), True)
            if const > 0 and _nonneg(y):
                return FALSE
            if const.denominator != 1 and kind(y) == 'i':
                return FALSE
        return mk('ite', mk('eq0', q, isint), TRUE, FALSE)
    if ka == 'b' and kb == 'b' or (ka == 'b' or kb == 'b') and (a.op in ('true', 'false') or b.op in ('true', 'false')):
        return ite(asbool(a), asbool(b), not_(asbool(b)))
    if a.op == 'str' and b.op == 'str' and isconststr(a) and isconststr(b):
        return FALSE
    if {a.op, b.op} == {'mit', 'mitend'}:
        return FALSE
    if {a.op, b.op} <= {'null', 'ptr', 'own', 'iter'}:
        if 'null' in (a.op, b.op):
            return FALSE
        if a.op == 'iter' and b.op == 'iter' and a.a[0] == b.a[0]:
            return eq(a.a[1], b.a[1])
    if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0]:
        return and_(*[eq(x[1], y[1]) for x, y in zip(a.a[1], b.a[1])])
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk('ite', mk('eqv', x, y), TRUE, FALSE)


def eq(a, b):
    if kind(a) == 'b' and kind(b) == 'i':
        a = tonum(a)
    if kind(b) == 'b' and kind(a) == 'i':
        b = tonum(b)
    return lift('eq', _eq, a, b)


def maxt(a, b):
    return ite(lt(a, b), b, a)


def mint(a, b):
    return ite(lt(b, a), b, a)


def idiv(a, b):
    return lift('idiv', _idiv, tonum(a), tonum(b))


def _idiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        return num(int(Fraction(a.a[0], b.a[0])))
    if b is ONE:
        return a
    # exact division of every coefficient
    if b.op == 'num' and b.a[0] != 0 and kind(a) == 'i':
        it = _items(a)
        if all((c / b.a[0]).denominator == 1 for m, c in it):
            return _frompoly({m: c / b.a[0] for m, c in it})
    return mk('app', 'idiv', 'i', (a, b))


def bitop(op, a, b, unsigned):
    return lift('bit%s:%s' % (op, unsigned), lambda x, y: _bitop(op, x, y, unsigned), tonum(a), tonum(b))


def bits(op, x, y):
    x, y = int(x), int(y)
    if op in ('<<', '>>') and not 0 <= y < 64:
        return None
    return {'&': x & y, '|': x | y, '^': x ^ y, '<<': x << max(y, 0), '>>': x >> max(y, 0)}[op] if op not in ('<<', '>>') else (x << y if op == '<<' else x >> y)


def _bitop(op, a, b, unsigned):
    if a.op == 'num' and b.op == 'num' and a.a[0].denominator == 1 and b.a[0].denominator == 1:
        r = bits(op, a.a[0], b.a[0])
        if r is not None:
            return num(r)
    if b.op == 'num' and b.a[0].denominator == 1 and 0 <= b.a[0] < 64:
        k = int(b.a[0])
        if op == '<<':
            return mul(a, num(2 ** k))
        if unsigned and op == '>>':
            return idiv(a, num(2 ** k))
        if unsigned and op == '&' and k & (k + 1) == 0:
            return imod(a, num(k + 1))
    if op in ('&', '|', '^') and a.op == 'num' and b.op != 'num':
        return _bitop(op, b, a, unsigned)
    return mk('app', 'bit' + op, 'i', (a, b))


def imod(a, b):
    return lift('imod', _imod, tonum(a), tonum(b))


def _imod(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        return num(int(a.a[0]) - int(b.a[0]) * int(Fraction(int(a.a[0]), int(b.a[0]))))
    if b is ONE:
        return ZERO
    if a is b:
        return ZERO
    return mk('app', 'imod', 'i', (a, b))


# ---------------------------------------------------------------- records
def rec(name, fields):
    return mk('rec', name, tuple(fields))


def fld(r, f):
    if r.op == 'rec':
        for n, v in r.a[1]:
            if n == f:
                return v
        return top('no field ' + f)
    if r.op == 'ite':
        return lift('fld.' + f, lambda x: fld(x, f), r)
    if r.op in ('top', 'dc'):
        return r
    return app('fld.' + f, 'o', r)


def setfld(r, f, v):
    if r.op == 'rec':
        return mk('rec', r.a[0], tuple((n, v if n == f else x) for n, x in r.a[1]))
    if r.op == 'ite':
        return ite(mk('ite', r.a[0], TRUE, FALSE), setfld(r.a[1], f, v), setfld(r.a[2], f, v))
    if r.op == 'top':
        return r
    return top('setfld on ' + r.op)


# ---------------------------------------------------------------- sequences
# list: segments ('e', value) single element, ('l', atom) unknown sequence
# atoms: lsym(name, mkelem) ; lapp(name, etype, args) ; fmap(n, bodylist, bvidx) ; upd(L,i,v)
ELEM = {}  # element type of list atom -> builder of symbolic element (set by the interpreter)
EMPTY = mk('list')


def lst(*segs):
    out = []
    for s in segs:
        if s[0] == 'e':
            out.append(s)
        else:
            v = s[1]
            if v.op == 'list':
                out.extend(v.a)
            else:
                out.append(s)
    return mk('list', *out)


def latom(t):
    return mk('list', ('l', t))


def single(v):
    return mk('list', ('e', v))


def concat(a, b):
    return lift('concat', _concat, a, b)


def _concat(a, b):
    if a.op == 'dc':
        return b
    if a.op != 'list' or b.op != 'list':
        return top('concat of %s %s' % (a.op, b.op))
    return mk('list', *(a.a + b.a))


def _len(l):
    if l.op != 'list':
        if l.op == 'str':
            if isconststr(l):
                return num(sum(len(s[1]) for s in l.a))
            return app('strlen', 'i', l)
        return top('len of ' + l.op)
    r = ZERO
    for s in l.a:
        if s[0] == 'e':
            r = add(r, ONE)
        else:
            r = add(r, atomlen(s[1]))
    return r


def atomlen(t):
    if t.op == 'upd' or t.op == 'rev' or t.op == 'perm':
        return length(t.a[0])
    if t.op == 'fmap':
        n, body = t.a[0], t.a[1]
        bl = length(body)
        if t.a[2] is not None:
            return sum_raw(n, bl, t.a[2])
    if t.op == 'fill':
        return t.a[0]
    if t.op == 'slice':
        return sub(t.a[2], t.a[1])
    return mk('len', t)


def length(l):
    return lift('len', _len, l)


def at(l, i):
    return lift('at', _at, l, tonum(i))


def _at(l, i):
    if l.op != 'list':
        return top('at of ' + l.op)
    if not l.a:
        return NONE
    pos = ZERO
    # leading concrete elements with constant index
    segs = l.a
    if len(segs) == 1 and segs[0][0] == 'l':
        return atomat(segs[0][1], i)
    # walk from the front
    res = None
    k = 0
    cur = ZERO
    while k < len(segs):
        s = segs[k]
        n = ONE if s[0] == 'e' else atomlen(s[1])
        inside = lt(sub(i, cur), n)
        if inside is TRUE or k == len(segs) - 1:
            v = s[1] if s[0] == 'e' else atomat(s[1], sub(i, cur))
            return v
        if inside is not FALSE:
            # try from the back: index relative to the end
            off = sub(i, cur)
            v = s[1] if s[0] == 'e' else atomat(s[1], off)
            rest = _at(mk('list', *segs[k + 1:]), sub(off, n))
            return ite(inside, v, rest)
        cur = add(cur, n)
        k += 1
    return NONE


def atomat(t, i):
    if i.op == 'ite':
        return lift('atomat', lambda a, b: atomat(a.a[0][1], b), latom(t), i)
    if t.op == 'upd':
        return ite(eq(t.a[1], i), t.a[2], at(t.a[0], i))
    if t.op == 'rev':
        return at(t.a[0], sub(sub(length(t.a[0]), ONE), i))
    if t.op == 'slice':
        return at(t.a[0], add(t.a[1], i))
    if t.op == 'fill':
        return t.a[1]
    if t.op == 'fmap' and t.a[2] is not None and t.a[1].op == 'list' and len(t.a[1].a) == 1 and t.a[1].a[0][0] == 'e':
        return subst(t.a[1].a[0][1], {t.a[2]: i})
    if t.op in ('lsym', 'lapp'):
        return ELEM['mk'](t, i)
    if t.op in ('fmap', 'lfold'):
        et = ELEM['etype'](t)
        if et is not None:
            return ELEM['mk'](mk('lapp', t.op, et, (latom(t),)), i)
    return app('at', 'o', latom(t), i)


def update(l, i, v):
    return lift('upd', _upd, l, tonum(i), v) if v.op == 'ite' and False else _updl(l, i, v)


def _updl(l, i, v):
    return lift('upd:%d' % v.id, lambda a, b: _upd(a, b, v), l, tonum(i))


def _upd(l, i, v):
    if l.op != 'list':
        return top('upd of ' + l.op)
    # constant position among leading/trailing concrete elements
    cur = ZERO
    for k, s in enumerate(l.a):
        if s[0] == 'e':
            if sub(i, cur) is ZERO:
                return mk('list', *(l.a[:k] + (('e', v),) + l.a[k + 1:]))
            cur = add(cur, ONE)
        else:
            n = atomlen(s[1])
            rel = sub(i, cur)
            if k == len(l.a) - 1 or lt(rel, n) is TRUE:
                sub_ = _updatom(s[1], rel, v)
                return lst(*(l.a[:k] + (('l', sub_),) + l.a[k + 1:]))
            cur = add(cur, n)
    return latom(mk('upd', l, i, v))


def _updatom(t, i, v):
    if t.op == 'upd' and eq(t.a[1], i) is TRUE:
        t = t.a[0].a[0][1] if len(t.a[0].a) == 1 and t.a[0].a[0][0] == 'l' else t
    L = latom(t)
    if at(L, i) is v:
        return t
    # order independent updates at provably different indices
    if t.op == 'upd' and eq(t.a[1], i) is FALSE and t.a[1].id > i.id:
        inner = latom(mk('upd', t.a[0], i, v))
        return mk('upd', inner, t.a[1], t.a[2])
    return mk('upd', L, i, v)


def rev(l):
    return lift('rev', _rev, l)


def _rev(l):
    if l.op != 'list':
        return top('rev')
    out = []
    for s in reversed(l.a):
        if s[0] == 'e':
            out.append(s)
        elif s[1].op == 'rev':
            out.extend(s[1].a[0].a)
        else:
            out.append(('l', mk('rev', latom(s[1]))))
    return mk('list', *out)


def slice_(l, a, b):
    return lift('slice', _slice, l, tonum(a), tonum(b))


def _slice(l, a, b):
    if l.op != 'list':
        return top('slice')
    if a is ZERO and b is length(l):
        return l
    if sub(b, a) is ZERO:
        return EMPTY
    segs = list(l.a)
    # drop leading concrete elements
    while segs and segs[0][0] == 'e' and a.op == 'num' and a.a[0] >= 1 and lt(b, ONE) is FALSE:
        segs.pop(0)
        a, b = sub(a, ONE), sub(b, ONE)
    L = mk('list', *segs)
    tot = length(L)
    while segs and segs[-1][0] == 'e' and sub(tot, b).op == 'num' and sub(tot, b).a[0] >= 1:
        segs.pop()
        tot = sub(tot, ONE)
    L = mk('list', *segs)
    if a is ZERO and b is length(L):
        return L
    if a.op == 'num' and b.op == 'num':
        return mk('list', *[('e', at(L, num(k))) for k in range(int(a.a[0]), int(b.a[0]))])
    if len(segs) == 1 and segs[0][0] == 'l' and segs[0][1].op == 'slice':
        s = segs[0][1]
        return _slice(s.a[0], add(s.a[1], a), add(s.a[1], b))
    return latom(mk('slice', L, a, b))


def bvfor(*ts, kind='i'):
    h = 0
    for t in ts:
        h = max(h, bheight(t))
    return mk('bv', h, kind)


def flatmap(n, v, body):
    """concatenation over v in [0,n) of list body"""
    n = tonum(n)
    return lift('flatmap:%d:%d' % (v.id, body.id), lambda m: _flatmap(m, v, body), n)


def _flatmap(n, v, body):
    if n.op == 'num' and n.a[0] <= 0:
        return EMPTY
    if body is EMPTY:
        return EMPTY
    if body.op == 'top':
        return body
    if n.op == 'num' and n.a[0] <= 8:
        r = EMPTY
        for k in range(int(n.a[0])):
            r = concat(r, subst(body, {v: num(k)}))
        return r
    # identity map over a sequence
    if body.op == 'list' and len(body.a) == 1 and body.a[0][0] == 'e':
        e = body.a[0][1]
        L = _seqof(e, v)
        if L is not None and length(L) is n:
            return L
        off = _seqoff(e, v)
        if off is not None:
            L, o = off
            if not (fv(o) & {v}):
                return slice_(L, o, add(o, n))
        roff = _seqroff(e, v)
        if roff is not None:
            L, hi = roff  # element hi - v
            s = slice_(L, add(sub(hi, n), ONE), add(hi, ONE))
            return rev(s)
    b = bvfor(body)
    return latom(mk('fmap', n, subst(body, {v: b}), b))


def _strip(e):
    while e.op == 'own':
        e = e.a[0]
    return e


def _elem_of(e):
    """(list atom term, index) when e is exactly the element of an unknown sequence"""
    src = ELEM['origin'](e)
    return src


def _seqof(e, v):
    s = _elem_of(e)
    if s is None:
        return None
    L, i = s
    if i is v and v not in fv(L):
        return L
    return None


def _seqoff(e, v):
    s = _elem_of(e)
    if s is None:
        return None
    L, i = s
    if v in fv(L):
        return None
    o = sub(i, v)
    if o.op == 'ite' or v in fv(o):
        return None
    return L, o


def _seqroff(e, v):
    s = _elem_of(e)
    if s is None:
        return None
    L, i = s
    if v in fv(L):
        return None
    o = add(i, v)
    if o.op == 'ite' or v in fv(o):
        return None
    return L, o


def sum_raw(n, body, b):
    """sum for bound variable b already abstracted"""
    v = var('ixs%d' % b.a[0], 'i')
    return sum_(n, v, subst(body, {b: v}))


def sum_(n, v, body):
    """numeric sum of body for v in [0,n)"""
    n = tonum(n)
    return lift('sum:%d:%d' % (v.id, body.id), lambda m: _sum(m, v, body), n)


def _sum(n, v, body):
    body = tonum(body)
    if n.op == 'num' and n.a[0] <= 0:
        return ZERO
    if n.op == 'num' and n.a[0] <= 8:
        r = ZERO
        for k in range(int(n.a[0])):
            r = add(r, subst(body, {v: num(k)}))
        return r
    if body.op == 'top':
        return body
    if v not in fv(body):
        return mul(n, body)
    # linearity: pull out constants and split sums
    if body.op == 'poly':
        r = ZERO
        for c, m in body.a:
            inn = tuple(x for x in m if v in fv(x[0]))
            out = tuple(x for x in m if v not in fv(x[0]))
            coef = _frompoly({out: c})
            if not inn:
                r = add(r, mul(n, coef))
                continue
            t = _frompoly({inn: Fraction(1)})
            r = add(r, mul(coef, _sum1(n, v, t)))
        return r
    return _sum1(n, v, body)


def _sum1(n, v, t):
    if t is v:
        return mul(num(Fraction(1, 2)), mul(n, sub(n, ONE)))
    # conditions that do not depend on v move outside
    if t.op == 'ite':
        for a in skel(t):
            if v not in fv(a):
                c = mk('ite', a, TRUE, FALSE)
                return ite(c, _sum(n, v, restrict(t, a, True)), _sum(n, v, restrict(t, a, False)))
    # split on a boundary index: if v<1 then first element
    t2 = subst(t, {v: sub(sub(n, ONE), v)})
    b1 = bvfor(t)
    x = mk('sum', n, subst(t, {v: b1}), b1)
    if t2.op != 'ite' and not tops(t2):
        b2 = bvfor(t2)
        y = mk('sum', n, subst(t2, {v: b2}), b2)
        if y.id < x.id:
            return y
    return x


def any_(n, v, c):
    """exists v in [0,n): c"""
    return lift('any:%d:%d' % (v.id, c.id), lambda m: _any(m, v, c), tonum(n))


def _any(n, v, c):
    c = asbool(c)
    if c is FALSE or (n.op == 'num' and n.a[0] <= 0):
        return FALSE
    if c.op == 'top':
        return c
    if n.op == 'num' and n.a[0] <= 8:
        return or_(*[subst(c, {v: num(k)}) for k in range(int(n.a[0]))])
    if v not in fv(c):
        return and_(lt(ZERO, n), c)
    for a in skel(c):
        if v not in fv(a):
            cc = mk('ite', a, TRUE, FALSE)
            return ite(cc, _any(n, v, restrict(c, a, True)), _any(n, v, restrict(c, a, False)))
    b = bvfor(c)
    x = mk('any', n, subst(c, {v: b}), b)
    c2 = subst(c, {v: sub(sub(n, ONE), v)})
    b2 = bvfor(c2)
    y = mk('any', n, subst(c2, {v: b2}), b2)
    if y.id < x.id:
        x = y
    return mk('ite', x, TRUE, FALSE)


def first_(n, v, c):
    """smallest v in [0,n) with c (meaningful when any holds)"""
    return lift('first:%d:%d' % (v.id, c.id), lambda m: _first(m, v, c), tonum(n))


def _first(n, v, c):
    c = asbool(c)
    if c is TRUE:
        return ZERO
    if v not in fv(c):
        return ZERO
    if c.op == 'top':
        return c
    b = bvfor(c)
    return mk('first', n, subst(c, {v: b}), b)


def fold_(kindtag, n, i, phi, init, body):
    """value of phi after n steps phi := body(i, phi), from init"""
    return lift('fold:%s:%d:%d:%d' % (kindtag, i.id, phi.id, body.id),
                lambda m, ini: _fold(kindtag, m, i, phi, ini, body), tonum(n), init)


def _fold(kindtag, n, i, phi, init, body):
    if n.op == 'num' and n.a[0] <= 0:
        return init
    if n.op == 'num' and n.a[0] <= 4:
        r = init
        for k in range(int(n.a[0])):
            r = subst(body, {i: num(k), phi: r})
        return r
    h = bheight(body)
    bi, bp = mk('bv', h, 'i'), mk('bv', h + 1, phi.a[1] if phi.op == 'var' else 'o')
    if phi.op == 'var' and phi.a[1] == 'i' and not _nonneg(phi):
        bp = mk('bv', h + 1, 'i', 'acc')
    return mk('fold', kindtag, n, init, subst(body, {i: bi, phi: bp}), bi, bp)


# ---------------------------------------------------------------- substitution
def subst(t, m):
    """capture-free substitution of var/bv terms, renormalising"""
    return substituter(m)(t)


def substituter(m):
    """the substitution of m; one result per term, however often it is applied"""
    keys = frozenset(m)
    memo = {}
    bvk = any(k.op == 'bv' for k in keys)

    def has(t):
        if fv(t) & keys:
            return True
        if bvk:
            return occbv(t, keys)
        return False

    def go(t):
        if t in m:
            return m[t]
        if not has(t):
            return t
        r = memo.get(t)
        if r is None:
            r = rebuild(t, go)
            memo[t] = r
        return r
    return go


_occ = {}


def occbv(t, keys):
    k = (t, keys)
    r = _occ.get(k)
    if r is None:
        if t in keys:
            r = True
        else:
            r = any(occbv(c, keys) for c in children(t))
        _occ[k] = r
    return r


def gopath(path, go):
    return tuple((p[0], go(p[1])) if len(p) > 1 and isinstance(p[1], T) else p for p in path)


def rebuild(t, go):
    op = t.op
    if op == 'poly':
        r = ZERO
        for c, mm in t.a:
            x = num(c)
            for at_, e in mm:
                y = go(at_)
                if e < 0:
                    y = div(ONE, y)
                for _ in range(abs(e)):
                    x = mul(x, y)
            r = add(r, x)
        return r
    if op == 'ite':
        c = go(t.a[0])
        c = asbool(c)
        return ite(c, go(t.a[1]), go(t.a[2]))
    if op == 'lt':
        return lt0(go(t.a[0]))
    if op == 'eq0':
        return eq(go(t.a[0]), ZERO)
    if op == 'eqv':
        return eq(go(t.a[0]), go(t.a[1]))
    if op == 'app':
        args = [go(x) for x in t.a[2]]
        return reapp(t.a[0], t.a[1], args)
    if op == 'rec':
        return mk('rec', t.a[0], tuple((n, go(v)) for n, v in t.a[1]))
    if op == 'own':
        return own(go(t.a[0]))
    if op == 'list':
        r = EMPTY
        for s in t.a:
            if s[0] == 'e':
                r = concat(r, single(go(s[1])))
            else:
                x = go(s[1])
                r = concat(r, x if x.op in ('list', 'ite', 'top') else latom(x))
        return r
    if op == 'str':
        r = mk('str')
        for s in t.a:
            if s[0] == 'c':
                r = strcat(r, mk('str', s))
            else:
                x = go(s[1])
                r = strcat(r, x if x.op in ('str', 'ite', 'top') else mk('str', ('a', x)))
        return r
    if op == 'len':
        x = go(t.a[0])
        return length(x if x.op in ('list', 'ite', 'top') else latom(x))
    if op == 'upd':
        return update(go(t.a[0]), go(t.a[1]), go(t.a[2]))
    if op == 'rev':
        return rev(go(t.a[0]))
    if op == 'slice':
        return slice_(go(t.a[0]), go(t.a[1]), go(t.a[2]))
    if op == 'fill':
        return fill(go(t.a[0]), go(t.a[1]))
    if op == 'fmap':
        b = t.a[2]
        v = var('ixb%d_%d' % (b.a[0], t.id), 'i')
        return flatmap(go(t.a[0]), v, go(subst1(t.a[1], b, v)))
    if op == 'sum':
        b = t.a[2]
        v = var('ixb%d_%d' % (b.a[0], t.id), 'i')
        return sum_(go(t.a[0]), v, go(subst1(t.a[1], b, v)))
    if op == 'any':
        b = t.a[2]
        v = var('ixb%d_%d' % (b.a[0], t.id), 'i')
        return any_(go(t.a[0]), v, go(subst1(t.a[1], b, v)))
    if op == 'first':
        b = t.a[2]
        v = var('ixb%d_%d' % (b.a[0], t.id), 'i')
        return first_(go(t.a[0]), v, go(subst1(t.a[1], b, v)))
    if op == 'fold':
        tag, n, init, body, bi, bp = t.a
        vi = var('ixb%d_%d' % (bi.a[0], t.id), 'i')
        vp = var('phb%d_%d' % (bp.a[0], t.id), bp.a[1])
        return fold_(tag, go(n), vi, vp, go(init), go(subst(body, {bi: vi, bp: vp})))
    if op == 'ptr':
        return mk('ptr', t.a[0], gopath(t.a[1], go))
    if op == 'iter':
        r = t.a[0]
        if isinstance(r, tuple):
            r = (r[0], gopath(r[1], go))
        return mk('iter', r, go(t.a[1]))
    if op in ('alias', 'bins'):
        return mk(op, t.a[0], gopath(t.a[1], go))
    if op == 'mit':
        return mk('mit', t.a[0], gopath(t.a[1], go), go(t.a[2]))
    if op == 'lsym':
        return ELEM['relsym'](t, go)
    if op == 'lapp':
        return lapp(t.a[0], t.a[1], *[go(x) for x in t.a[2]])
    # generic
    args = []
    for x in t.a:
        if isinstance(x, T):
            args.append(go(x))
        elif isinstance(x, tuple):
            args.append(tuple(go(y) if isinstance(y, T) else y for y in x))
        else:
            args.append(x)
    return mk(op, *args)


def subst1(t, b, v):
    return subst(t, {b: v})


def reapp(name, k, args):
    if name in ('sin', 'cos', 'tan', 'asin', 'atan', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'fabs'):
        return fn1(name, args[0])
    if name == 'idiv':
        return idiv(*args)
    if name == 'imod':
        return imod(*args)
    if name.startswith('bit') and len(args) == 2:
        return bitop(name[3:], args[0], args[1], False)
    if name == 'inv':
        return div(ONE, args[0])
    if name == 'at' and len(args) == 2:
        return at(args[0], args[1])
    if name.startswith('fld.') and len(args) == 1 and args[0].op in ('rec', 'ite'):
        return fld(args[0], name[4:])
    h = REAPP.get(name)
    if h:
        return h(k, args)
    return app(name, k, *args)


REAPP = {}


def lapp(name, et, *args):
    """unknown sequence computed by name(args), with elements of type et"""
    if any(x.op in ('ite', 'top') for x in args):
        return lift('lapp:%s:%s' % (name, et), lambda *xs: latom(mk('lapp', name, et, tuple(xs))), *args)
    return latom(mk('lapp', name, et, tuple(args)))


def own(v):
    if v.op == 'ite' and False:
        return v
    return mk('own', v)


def fill(n, v):
    return lift('fill:%d' % v.id, lambda m: _fill(m, v), tonum(n))


def _fill(n, v):
    if n.op == 'num' and n.a[0] <= 16:
        return mk('list', *[('e', v)] * max(0, int(n.a[0])))
    return latom(mk('fill', n, v))


# ---------------------------------------------------------------- strings
def strc(s):
    return mk('str', ('c', s)) if s else mk('str')


def strcat(a, b):
    return lift('strcat', _strcat, a, b)


def _strcat(a, b):
    if a.op != 'str' or b.op != 'str':
        a = a if a.op == 'str' else mk('str', ('a', a))
        b = b if b.op == 'str' else mk('str', ('a', b))
    segs = list(a.a)
    for s in b.a:
        if segs and segs[-1][0] == 'c' and s[0] == 'c':
            segs[-1] = ('c', segs[-1][1] + s[1])
        else:
            segs.append(s)
    return mk('str', *segs)


# ---------------------------------------------------------------- printing
def show(t, d=8):
    if not isinstance(t, T):
        return str(t)
    op = t.op
    if op == 'num':
        return str(t.a[0])
    if op in ('true', 'false', 'null', 'void', 'dc'):
        return op
    if op in ('sym', 'var'):
        return str(t.a[0])
    if op == 'bv':
        return '#%d' % t.a[0]
    if d <= 0:
        return '...'
    s = lambda x: show(x, d - 1)
    if op == 'poly':
        r = []
        for c, m in t.a:
            x = '*'.join(s(at_) + ('^%d' % e if e != 1 else '') for at_, e in m)
            if not x:
                x = str(c)
            elif c != 1:
                x = ('-' if c == -1 else str(c) + '*') + x
            r.append(x)
        return '(' + ' + '.join(r) + ')'
    if op == 'ite':
        return 'if[%s ? %s : %s]' % (s(t.a[0]), s(t.a[1]), s(t.a[2]))
    if op == 'lt':
        return s(t.a[0]) + '<0'
    if op == 'eq0':
        return s(t.a[0]) + '==0'
    if op == 'eqv':
        return s(t.a[0]) + '==' + s(t.a[1])
    if op == 'app':
        return '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[2]))
    if op == 'rec':
        return '%s{%s}' % (t.a[0].split('::')[-1], ', '.join('%s=%s' % (n, s(v)) for n, v in t.a[1]))
    if op == 'list':
        return '[' + ', '.join(s(x[1]) if x[0] == 'e' else '*' + s(x[1]) for x in t.a) + ']'
    if op == 'lsym':
        return s(t.a[0]) if isinstance(t.a[0], T) else str(t.a[0])
    if op == 'lapp':
        return '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[2]))
    if op == 'str':
        return '"' + ''.join(x[1] if x[0] == 'c' else '{' + s(x[1]) + '}' for x in t.a) + '"'
    if op == 'len':
        return '|%s|' % s(t.a[0])
    if op in ('fmap', 'sum', 'any', 'first'):
        return '%s(#%d<%s: %s)' % (op, t.a[2].a[0], s(t.a[0]), s(t.a[1]))
    if op == 'fold':
        return 'fold(#%d<%s; #%d=%s: %s)' % (t.a[4].a[0], s(t.a[1]), t.a[5].a[0], s(t.a[2]), s(t.a[3]))
    if op == 'own':
        return '&' + s(t.a[0])
    if op == 'ptr':
        return 'ptr(%s%s)' % (t.a[0], ''.join('.' + (str(p[-1]) if not isinstance(p[-1], T) else '[' + s(p[1]) + ']') for p in t.a[1]))
    if op == 'top':
        return 'TOP(%s)' % (t.a[0],)
    return '%s(%s)' % (op, ', '.join(show(x, d - 1) if isinstance(x, T) else str(x) for x in t.a))
