"""Random interpretation of value-numbering terms (Gulwani-Necula style).

Two canonical summaries that are not the same node are separated, when they can be, by an
interpretation of their free symbols and uninterpreted operations.  Nothing of the analysed
program runs: only the algebraic terms of the two summaries are interpreted.  A separating
interpretation is a counterexample in the term algebra; when none is found the comparison
stays inconclusive and no violation is claimed."""
import hashlib
import math
import sys
import re
from fractions import Fraction
from . import terms as X
from . import interp as IP
from .terms import T, TRUE, FALSE, mk


class Skip(Exception):
    """this interpretation says nothing (partial operation outside of its domain)"""


class Endless(Skip):
    pass


class OOB(Skip):
    """an element outside of its sequence is read"""


class Unknown(Exception):
    """the term contains something the analysis could not summarise"""


DC = ('dc',)
BIG = Fraction(10) ** 300
ATOMIC = (int, Fraction, bool, str)


def F(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, Fraction):
        return v
    if isinstance(v, int):
        return Fraction(v)
    if v == DC:
        raise Skip('dc')
    raise Skip('not a number %r' % (v,))


def fl(v):
    try:
        return float(v)
    except OverflowError:
        raise Skip('overflow')


def fromf(x):
    if x != x or x in (math.inf, -math.inf):
        raise Skip('nan')
    return Fraction(x)


def canon(v):
    """hashable text of a value; numbers rounded"""
    if isinstance(v, bool):
        return 'T' if v else 'F'
    if isinstance(v, (int, Fraction)):
        if v == 0:
            return '0'
        if abs(v) >= BIG:
            return 'big' if v > 0 else '-big'
        s = '%.8e' % fl(v)
        return s
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, tuple):
        return '(' + ','.join(canon(x) for x in v) + ')'
    if v is None:
        return 'null'
    return str(v)


def same(a, b, tol=1e-7):
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (bool, int, Fraction)) and isinstance(b, (bool, int, Fraction)):
            return int(a) == int(b)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if a == b:
            return True
        m = max(abs(a), abs(b), Fraction(1, 1000))
        return abs(a - b) <= m * Fraction(tol)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a == DC or b == DC:
            return True
        if a and b and a[0] == 'map' and b[0] == 'map':
            return samemap(a, b, tol)
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def samemap(a, b, tol):
    return len(a[1]) == len(b[1]) and all(same(x[1], y[1], tol) and same(x[2], y[2], tol) for x, y in zip(a[1], b[1]))


def mined(terms):
    """numeric and string constants occurring in the terms"""
    nums, strs = set(), set()
    seen = set()
    st = [t for t in terms if isinstance(t, T)]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'num':
            nums.add(t.a[0])
        elif t.op == 'poly':
            for c, m in t.a:
                if m == ():
                    nums.add(abs(c))
                elif abs(c) != 1 and c != 0:
                    nums.add(abs(1 / c))
        elif t.op == 'str':
            for s in t.a:
                if s[0] == 'c':
                    strs.add(s[1])
        if len(seen) > 60000:
            break
        st.extend(X.children(t))
    return nums, strs


_free = {}
BIND = {'sum': (1, 2), 'any': (1, 2), 'first': (1, 2), 'fmap': (1, 2)}


def free(t):
    """bound variables (and names of comparator arguments) that occur free in t, in a fixed order"""
    r = _free.get(t)
    if r is None:
        op = t.op
        if op in ('bv', 'cv', 'var'):
            r = frozenset((t,))
        elif op == 'sym':
            nm = t.a[0][2:] if t.a[0].startswith('u:@') else t.a[0]
            r = frozenset((nm.split('.')[0],)) if nm.startswith('@') else frozenset()
        elif op in BIND:
            r = frozenset(free(t.a[0])) | (frozenset(free(t.a[1])) - {t.a[2]})
        elif op == 'app' and t.a[0] == 'upto' and len(t.a[2]) == 3:
            r = frozenset(free(t.a[2][0])) | (frozenset(free(t.a[2][1])) - {t.a[2][2]})
        elif op == 'fold':
            tag, n, init, body, bi, bp = t.a
            r = frozenset(free(n)) | frozenset(free(init)) | {v for v in free(body) if v is not bi and not samevar(v, bp)}
        elif op == 'foldn':
            n, inits, bodies, b, lvl = t.a
            r = frozenset(free(n))
            for x in inits:
                r |= frozenset(free(x))
            for x in bodies:
                r |= {v for v in free(x) if v is not b and not (isinstance(v, T) and v.op == 'cv' and lvl <= v.a[0] < lvl + len(inits))}
        else:
            r = frozenset()
            for c in X.children(t):
                r |= frozenset(free(c))
            if op == 'descr':
                r = frozenset(v for v in r if not isinstance(v, str))
        r = tuple(sorted(r, key=lambda v: v if isinstance(v, str) else '#%d' % v.id))
        _free[t] = r
    return r


def samevar(v, w):
    return v is w


class Eval:
    total = False

    def __init__(self, I, seed, nums=(), strs=(), maxlen=4, budget=400000):
        self.I = I
        self.seed = str(seed)
        self.nums = sorted(nums)
        self.signed = sorted({c for x in nums if abs(x) < 10 ** 5 for c in (x, -x)} | {Fraction(0)})
        self.strs = sorted(strs)
        self.memo = {}
        self.assign = {}
        self.maxlen = maxlen
        self.budget = budget
        self.opaque = set()
        self.elems = {}
        self.nenv = 0
        # some interpretations use few values, some repeat elements, so that values coincide
        m = self.h('mode') % 8
        self.tiny, self.dup = m == 0, m in (1, 2)
        self.between = m == 5
        if m in (3, 4):
            self.maxlen = maxlen + 3

    # ------------------------------------------------------------ samples
    def h(self, *parts):
        s = self.seed + '|' + '|'.join(parts)
        return int.from_bytes(hashlib.blake2b(s.encode('utf8', 'replace'), digest_size=12).digest(), 'big')

    def sample(self, kind, uid, nonneg=False, isinput=False):
        h = self.h(kind, uid)
        lo, h = h & 0xff, h >> 8
        if kind == 'r':
            if isinput and self.tiny and lo < 224:
                v = Fraction([0, 1, 1, 2][h % 4])
            elif isinput and lo < 56:
                v = Fraction([0, 1, 2, 3, -1, -2, Fraction(1, 2), 5][h % 8])
            elif isinput and lo < 110 and self.nums:
                c = self.nums[h % len(self.nums)]
                h >>= 10
                v = c * [1, 1, -1, Fraction(1, 2), 2, Fraction(9, 10), Fraction(11, 10), 1][h % 8]
                if abs(v) > 10 ** 9:
                    v = Fraction(7)
            elif self.nums and (lo < (140 if isinput else 30) or isinput and self.between):
                # strictly between two neighbouring constants
                c = self.signed
                j = h % (len(c) + 1)
                h >>= 10
                a = c[j - 1] if j else c[0] - 50
                b = c[j] if j < len(c) else c[-1] + 50
                v = a + (b - a) * Fraction(h % 997 + 1, 999)
            else:
                v = Fraction(h % 4096 - 2048, 64 if lo & 1 else 256) + Fraction(1, 777)
            if nonneg:
                v = abs(v)
            return v
        if kind == 'i':
            if lo < (70 if isinput else 50) and self.nums:
                c = self.nums[h % len(self.nums)]
                c = int(c) + [0, 0, 1, -1][(h >> 12) % 4]
                if abs(c) < 5000:
                    return abs(c) if nonneg else c
            m = h % 7
            return m if nonneg else m - (2 if lo < 100 else 0)
        if kind == 'b':
            if uid.startswith('!app:nonnull:'):
                return bool(h & 7)
            return bool(h & 1)
        if kind == 's':
            if isinput:
                if self.strs and lo < 150:
                    a = self.strs[h % len(self.strs)]
                    if lo < 90:
                        return a
                    b = self.strs[(h >> 10) % len(self.strs)]
                    return [a + 'q%d' % (h % 97), a + b, 'z' + a, a[:-1]][(h >> 20) % 4]
                return ['', 'EPSG:4326', 's%d' % (h % 1000), 's1'][(h >> 20) % 4]
            if self.strs and lo < 60:
                return self.strs[h % len(self.strs)]
            if self.strs and lo < 100:
                return ''.join([self.strs[(h >> j) % len(self.strs)] + 'q%d' % ((h >> j) % 7) for j in (10, 20, 30)[:1 + lo % 3]])
            return 's%x' % (h % (1 << 40))
        return ('u', '%x' % (h % (1 << 48)))

    def leafval(self, kind, uid, isinput, unsigned=False):
        key = (kind, uid)
        v = self.assign.get(key)
        if v is None:
            v = self.sample(kind, uid, unsigned, isinput)
            self.assign[key] = v
        return v

    # ------------------------------------------------------------ unknown sequences
    def genlist(self, uid, et, isinput, geometry):
        key = ('L', uid, et)
        v = self.elems.get(key)
        if v is None:
            if et == '?' or et is None:
                raise Unknown('untyped sequence')
            lo = 1 if geometry and '[' in uid.rsplit('.', 1)[0] else 0
            depth = uid.count('[')
            top = self.maxlen if depth == 0 else 3 if depth == 1 else 2
            n = lo + self.h('len', uid) % (top - lo + 1)
            v = []
            for k in range(n):
                j = self.h('dup', uid, str(k)) if self.dup else 0
                v.append(v[(j >> 4) % k] if k and self.dup and j % 3 == 0 else self.gen(et, '%s[%d]' % (uid, k), isinput))
            v = tuple(v)
            self.elems[key] = v
            if isinput:
                self.assign[('len', uid)] = n
        return v

    def gen(self, et, uid, isinput):
        # structure of a value of type et with symbols named after the element
        t = self.I.symval(et, ('n', uid if isinput else '!' + uid))
        return self.ev(t, {})

    def etype_leaf(self, t, et, env):
        """uid, isinput of the leaf term of an unknown sequence / string / map"""
        if t.op == 'sym':
            return t.a[0], not t.a[0].startswith('!')
        return None

    # ------------------------------------------------------------ evaluation
    def ev(self, t, env):
        k = t
        if env:
            fr = free(t)
            if fr:
                ids = env['#']
                k = (t,) + tuple(ids.get(v) for v in fr)
        r = self.memo.get(k, self)
        if r is not self:
            if isinstance(r, Exception):
                raise r
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Skip('budget')
        try:
            r = self._ev(t, env)
        except (Skip, Unknown) as ex:
            self.memo[k] = ex
            raise
        self.memo[k] = r
        return r

    def bind(self, env, **kw):
        e = dict(env)
        return e

    def sub(self, env, binds):
        e = dict(env)
        e.update(binds)
        ids = dict(env['#']) if env else {}
        for v in binds:
            self.nenv += 1
            ids[v] = self.nenv
        e['#'] = ids
        return e

    def bool(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, (bool, int, Fraction)):
            return v != 0
        if v == DC:
            raise Skip('dc')
        raise Unknown('not a boolean')

    def lst(self, t, env):
        v = self.ev(t, env) if t.op in ('list', 'ite', 'dc', 'top') else self.seg(t, env)
        if v == DC:
            raise Skip('dc')
        if not isinstance(v, tuple) or (v and v[0] in ('rec', 'own', 'map', 'u') and isinstance(v[0], str)):
            raise Unknown('not a sequence')
        return v

    def idx(self, t, env):
        v = F(self.ev(t, env))
        if v.denominator != 1:
            raise Skip('index')
        return int(v)

    def rounds(self, t, env):
        """the rounds of a loop; of one that wrapped around, the first ones (they may leave a sequence)"""
        try:
            n = self.idx(t, env)
        except Endless:
            n = 10 ** 12
        if n > 10 ** 9:
            for k in range(40):
                yield k
            raise Skip('long')
        if n > 200:
            raise Skip('long')
        yield from range(max(n, 0))

    def cnt(self, t, env):
        n = self.idx(t, env)
        if n > 200:
            raise Skip('long')
        return max(n, 0)

    def _ev(self, t, env):
        op = t.op
        if op == 'num':
            return t.a[0]
        if op == 'poly':
            r = Fraction(0)
            for c, m in t.a:
                p = c
                for at, e in m:
                    v = F(self.ev(at, env))
                    if e < 0 and v == 0:
                        raise Skip('division by zero')
                    p *= v ** e
                r += p
            return r
        if op == 'ite':
            try:
                c = self.bool(t.a[0], env)
            except Skip as ex:
                # decisions are kept in one global order, so a partial operation may be decided
                # before its guard: it says nothing where both branches agree
                if ex.args == ('budget',):
                    raise
                x, y = self.ev(t.a[1], env), self.ev(t.a[2], env)
                if x == DC or y == DC or not same(x, y):
                    raise
                return x
            return self.ev(t.a[1] if c else t.a[2], env)
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'lt':
            v = F(self.ev(t.a[0], env))
            return v < 0 and not self.near0(v)
        if op == 'eq0':
            v = F(self.ev(t.a[0], env))
            return self.near0(v)
        if op == 'eqv':
            a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
            if a == DC or b == DC:
                raise Skip('dc')
            return same(a, b, 1e-11)
        if op == 'sym':
            nm = t.a[0]
            if nm == 'PI':
                return Fraction(math.pi)
            if nm == 'INF':
                return BIG
            if nm == 'NINF':
                return -BIG
            if nm in LIMITS:
                return LIMITS[nm]
            if nm.startswith('@') or nm.startswith('u:@'):
                return self.named(nm[2:] if nm.startswith('u:') else nm, env)
            if t.a[1] in ('l', 'm'):
                raise Unknown('untyped ' + nm)
            return self.leafval(t.a[1], nm, not nm.startswith('!') and not nm.startswith('u:!'), nm.startswith('u:'))
        if op == 'bv' or op == 'var' or op == 'cv':
            if t in env:
                return env[t]
            raise Unknown('free ' + op)
        if op == 'list':
            out = []
            for s in t.a:
                if s[0] == 'e':
                    out.append(self.ev(s[1], env))
                else:
                    out.extend(self.seg(s[1], env))
            return tuple(out)
        if op == 'str':
            out = ''
            for s in t.a:
                if s[0] == 'c':
                    out += s[1]
                else:
                    v = self.ev(s[1], env)
                    if not isinstance(v, str):
                        if v == DC:
                            raise Skip('dc')
                        v = 'n' + canon(v)
                    out += v
            return out
        if op == 'rec':
            return ('rec', t.a[0]) + tuple((n, self.ev(v, env)) for n, v in t.a[1])
        if op == 'own':
            return ('own', self.ev(t.a[0], env))
        if op == 'null':
            return None
        if op == 'void':
            return ('void',)
        if op == 'dc':
            return DC
        if op == 'top':
            raise Unknown('unsummarised: %s' % (t.a[0],))
        if op == 'len':
            a = t.a[0]
            return Fraction(len(self.lst(a, env)))
        if op == 'sum':
            r = Fraction(0)
            for k in self.rounds(t.a[0], env):
                r += F(self.ev(t.a[1], self.sub(env, {t.a[2]: Fraction(k)})))
            return r
        if op == 'any':
            return any(self.bool(t.a[1], self.sub(env, {t.a[2]: Fraction(k)})) for k in self.rounds(t.a[0], env))
        if op == 'first':
            if t.a[0].op == 'sym' and t.a[0].a[0] == 'INFTY':
                for k in range(40):
                    if self.bool(t.a[1], self.sub(env, {t.a[2]: Fraction(k)})):
                        return Fraction(k)
                raise Endless('endless')
            k = -1
            for k in self.rounds(t.a[0], env):
                if self.bool(t.a[1], self.sub(env, {t.a[2]: Fraction(k)})):
                    return Fraction(k)
            return Fraction(k + 1)
        if op == 'fold':
            tag, n, init, body, bi, bp = t.a
            v = self.ev(init, env)
            for k in self.rounds(n, env):
                v = self.ev(body, self.sub(env, {bi: Fraction(k), bp: v}))
            return v
        if op == 'app':
            if t.a[0] == 'strjoin':
                cnt, body, b = t.a[2][0].a[2]
                return ''.join(str(self.ev(body, self.sub(env, {b: Fraction(k)}))) for k in range(self.cnt(cnt, env)))
            return self.app(t, env)
        if op == 'lf':
            return self.lf(t, env)
        if op in ('lsym', 'lapp', 'fmap', 'upd', 'rev', 'slice', 'fill'):
            return self.seg(t, env)
        if op in ('msym', 'mset', 'merase', 'mempty'):
            return self.map(t, env)
        if op == 'iter':
            return ('iter', self.ev(t.a[1], env))
        if op in ('lam', 'fnref', 'descr'):
            self.opaque.add(t)
            return ('u', '%s%d' % (op, t.id))
        if op == 'ptr':
            raise Unknown('address')
        raise Unknown('op ' + op)

    def near0(self, v):
        return v == 0 or (abs(v) < Fraction(1, 10 ** 11) and v.denominator > 10 ** 13)

    # ------------------------------------------------------------ leaves
    def named(self, nm, env):
        parts = nm.split('.')
        v = env.get(parts[0])
        if v is None:
            raise Unknown('unbound ' + parts[0])
        return self.steps(v, parts[1:])

    def steps(self, v, steps):
        for s in steps:
            if s == '#u' or s == '':
                continue
            if v == DC:
                raise Skip('dc')
            if s == '*':
                if isinstance(v, tuple) and v and v[0] == 'own':
                    v = v[1]
                    continue
                if v is None:
                    raise Skip('null')
                raise Unknown('deref')
            if isinstance(v, tuple) and v and v[0] == 'own':
                v = v[1]
            if isinstance(v, tuple) and v and v[0] == 'rec':
                for n, x in v[2:]:
                    if n == s:
                        v = x
                        break
                else:
                    raise Unknown('no field ' + s)
                continue
            raise Unknown('step %s' % s)
        return v

    def leafbase(self, b, env):
        """(base value, None) or (None, uid)"""
        while b.op == 'ite':
            b = b.a[1] if self.bool(b.a[0], env) else b.a[2]
        if b.op == 'pel':
            L = self.lst(b.a[0], env)
            i = self.idx(b.a[1], env)
            if not 0 <= i < len(L):
                raise OOB('index out of range')
            return L[i], None
        if b.op == 'call':
            return None, self.calluid(b, env)
        if b.op == 'geo':
            v = self.ev(b.a[0], env)
            return None, 'geo:' + canon(v)
        if b.op == 'pmap':
            m = self.ev(b.a[0], env)
            if m == DC:
                raise Skip('dc')
            k = canon(self.ev(b.a[1], env))
            for e in m[1]:
                if e[0] == k:
                    return e[2], None
            if self.total and b.a[0].op == 'msym' and len(b.a[0].a) > 2:
                # every key is present in a map of the unknown state (option 'totalmaps')
                return self.gen(b.a[0].a[2], 'M:%s{%s}' % (b.a[0].id, k), False), None
            raise Skip('no such key')
        return None, '%s:%s' % (b.op, canon(self.ev(b, env)))

    def calluid(self, b, env):
        c = [canon(self.ev(x, env)) for x in b.a[1:]]
        if '::operator==(' in b.a[0]:
            c.sort()
        return 'call:%s:%s' % (b.a[0], ','.join(c))

    def lf(self, t, env):
        kind, b, steps = t.a
        if b.op == 'call' and b.a[0] == 'ogr.get_IsClosed' and kind == 'b':
            g = self.ev(b.a[1], env)
            if isinstance(g, tuple) and g and g[0] == 'rec' and g[1] in ('OGRLineString', 'OGRLinearRing') and g[2][0] == 'g':
                L = g[2][1]
                return not L or all(self.steps(L[0], [c]) == self.steps(L[-1], [c]) for c in 'xyz')
        v, uid = self.leafbase(b, env)
        if uid is None:
            return self.steps(v, steps)
        nm = '!' + uid + ''.join('.' + s for s in steps if s != '#u')
        if kind in ('l', 'm'):
            raise Unknown('untyped leaf')
        return self.leafval(kind, nm, False, steps[-1:] == ('#u',) or uid.startswith('call:ogr.Distance'))

    # ------------------------------------------------------------ sequences
    def seg(self, t, env):
        op = t.op
        if op == 'lsym':
            x, et = t.a
            geom = et in ('OGRPoint', 'OGRLineString', 'OGRLinearRing', 'OGRPolygon')
            if x.op == 'sym':
                if x.a[0].startswith('@'):
                    return self.named(x.a[0], env)
                return self.genlist(x.a[0], et, not x.a[0].startswith('!'), geom)
            if x.op == 'lf':
                v, uid = self.leafbase(x.a[1], env)
                if uid is None:
                    r = self.steps(v, x.a[2])
                    if isinstance(r, tuple):
                        return r
                    raise Unknown('sequence')
                return self.genlist('!' + uid + ''.join('.' + s for s in x.a[2]), et, False, geom)
            if x.op in ('bv', 'var', 'cv'):
                return env[x] if x in env else self.unk('free')
            if x.op in ('fold', 'app'):
                r = self.ev(x, env)
                if isinstance(r, tuple):
                    return r
            raise Unknown('sequence of ' + x.op)
        if op == 'fmap':
            out = []
            for k in self.rounds(t.a[0], env):
                out.extend(self.lst(t.a[1], self.sub(env, {t.a[2]: Fraction(k)}) if t.a[2] is not None else env))
            return tuple(out)
        if op == 'upd':
            L = list(self.lst(t.a[0], env))
            i = self.idx(t.a[1], env)
            if not 0 <= i < len(L):
                raise OOB('index out of range')
            L[i] = self.ev(t.a[2], env)
            return tuple(L)
        if op == 'rev':
            return tuple(reversed(self.lst(t.a[0], env)))
        if op == 'slice':
            L = self.lst(t.a[0], env)
            a, b = self.idx(t.a[1], env), self.idx(t.a[2], env)
            if not 0 <= a <= b <= len(L):
                raise Skip('slice out of range')
            return L[a:b]
        if op == 'fill':
            return (self.ev(t.a[1], env),) * self.cnt(t.a[0], env)
        if op == 'lapp':
            return self.lapp(t, env)
        if op in ('list', 'ite', 'dc', 'top', 'fold', 'bv', 'cv', 'app'):
            r = self.ev(t, env)
            if isinstance(r, tuple) and r != DC:
                return r
            if r == DC:
                raise Skip('dc')
        raise Unknown('segment ' + op)

    def unk(self, r):
        raise Unknown(r)

    def lapp(self, t, env):
        name, et, args = t.a
        if name == 'fold':
            r = self.ev(args[0], env)
            if isinstance(r, tuple):
                return r
            raise Unknown('fold')
        if name == 'entries':
            m = self.ev(args[0], env)
            if m == DC:
                raise Skip('dc')
            return tuple(('rec', 'std::pair', ('first', e[1]), ('second', e[2])) for e in m[1])
        if name == 'unique' and args[1].op == 'descr' and args[1].a[0].op == 'str' and args[1].a[0].a == (('c', '='),):
            out = []
            for x in self.lst(args[0], env):
                if not isinstance(x, (int, Fraction, str)):
                    raise Unknown('unique')
                if not out or not same(out[-1], x, 1e-11):
                    out.append(x)
            return tuple(out)
        if name in ('sort', 'remove_if', 'remove_if-rest') and args[1].op == 'descr':
            L = self.lst(args[0], env)
            d = args[1].a[0]
            if d.op == 'str':
                if name == 'sort' and d.a == (('c', '<'),):
                    if not all(isinstance(x, (int, Fraction, str)) for x in L):
                        raise Unknown('sort')
                    return tuple(sorted(L))
                raise Unknown(name)
            if name == 'sort':
                import functools

                def cmp(a, b):
                    if self.bool(d, self.sub(env, {'@x': a, '@y': b})):
                        return -1
                    return 1 if self.bool(d, self.sub(env, {'@x': b, '@y': a})) else 0
                return tuple(sorted(L, key=functools.cmp_to_key(cmp)))
            hit = [self.bool(d, self.sub(env, {'@x': a})) for a in L]
            if name == 'remove_if':
                return tuple(a for a, q in zip(L, hit) if not q)
            return tuple(a for a, q in zip(L, hit) if q)
        uid = '!%s:%s' % (name, ','.join(canon(self.ev(x, env) if x.op not in ('descr', 'lam') else self.opq(x)) for x in args))
        return self.genlist(uid, et, False, et.startswith('OGR'))

    def opq(self, x):
        self.opaque.add(x)
        return ('u', '%s%d' % (x.op, x.id))

    # ------------------------------------------------------------ maps
    def map(self, t, env):
        """('map', entries): entries sorted by the text of their key"""
        op = t.op
        if op == 'msym':
            x = t.a[0]
            if x.op in ('bv', 'cv', 'var'):
                if x in env:
                    return env[x]
                raise Unknown('free map')
            if x.op == 'sym':
                uid = x.a[0]
                if uid.startswith('@'):
                    return self.named(uid, env)
            elif x.op == 'lf':
                v, uid = self.leafbase(x.a[1], env)
                if uid is None:
                    return self.steps(v, x.a[2])
                uid = '!' + uid + ''.join('.' + s for s in x.a[2])
            elif x.op in ('app', 'fold'):
                return self.ev(x, env)
            else:
                raise Unknown('map')
            return self.genmap(uid, t.a[1], t.a[2])
        if op == 'mempty':
            return ('map', ())
        m = self.ev(t.a[0], env)
        if m == DC:
            raise Skip('dc')
        kv = self.ev(t.a[1], env)
        k = canon(kv)
        ent = {e[0]: e for e in m[1]}
        if op == 'mset':
            ent[k] = (k, kv, self.ev(t.a[2], env))
        else:
            ent.pop(k, None)
        return ('map', tuple(ent[q] for q in sorted(ent)))

    def genmap(self, uid, kt, vt):
        key = ('M', uid)
        v = self.elems.get(key)
        if v is None:
            if kt == '?' or vt == '?':
                raise Unknown('untyped map')
            isin = not uid.startswith('!')
            n = self.h('msize', uid) % 4
            ent = {}
            for i in range(n):
                kv = self.gen(kt, '%s{%d}.k' % (uid, i), isin)
                k = canon(kv)
                if k not in ent:
                    ent[k] = (k, kv, self.gen(vt, '%s{%d}.v' % (uid, i), isin))
            v = ('map', tuple(ent[q] for q in sorted(ent)))
            self.elems[key] = v
        return v

    # ------------------------------------------------------------ operations
    def app(self, t, env):
        name, kind, args = t.a
        if name == 'foldn':
            return self.foldn(args[0], env)
        if name == 'at':
            L = self.lst(args[0], env)
            i = self.idx(args[1], env)
            if not 0 <= i < len(L):
                raise OOB('index out of range')
            return L[i]
        if name.startswith('fld.'):
            v = self.ev(args[0], env)
            if isinstance(v, tuple) and v and v[0] in ('rec', 'own'):
                return self.steps(v, [name[4:]])
        f = MATH.get(name)
        if f:
            a = [F(self.ev(x, env)) for x in args]
            r = f(*a)
            return r
        if name == 'strlen':
            v = self.ev(args[0], env)
            if isinstance(v, str):
                return Fraction(len(v))
        if name == 'mhas':
            m = self.ev(args[0], env)
            if m == DC:
                raise Skip('dc')
            k = canon(self.ev(args[1], env))
            if self.total and args[0].op == 'msym':
                return True
            return any(e[0] == k for e in m[1])
        if name == 'msize':
            m = self.ev(args[0], env)
            if m == DC:
                raise Skip('dc')
            return Fraction(len(m[1]))
        vals = [self.ev(x, env) if x.op not in ('descr', 'lam', 'fnref') else self.opq(x) for x in args]
        if any(v == DC for v in vals):
            raise Skip('dc')
        g = STRFN.get(name)
        if g and vals and isinstance(vals[0], (str, Fraction, int)):
            return g(*vals)
        c = [canon(v) for v in vals]
        if name in ('rng.unit', 'rng.exp'):
            h = self.h(name, c[0])
            return Fraction((h >> 8) % 1009, 1009) if h & 31 else Fraction(0)
        if name in ('ogr.Intersects', 'ogr.Distance', 'ogr.Disjoint', 'ogr.Touches', 'ogr.Equals', 'ogr.Crosses'):
            c.sort()
        uid = '!app:%s:%s' % (name, ','.join(c))
        if kind in ('l', 'm'):
            raise Unknown('untyped ' + name)
        nn = name in ('ogr.get_Area', 'ogr.get_Length', 'ogr.Distance', 'msize', 'ogr.Length', 'ogr.Area', 'strlen', 'json.size')
        v = self.leafval(kind, uid, False, nn)
        return v

    def foldn(self, f, env):
        n, inits, bodies, b, lvl = f.a
        k = ('foldn', f) + (tuple(env['#'].get(v) for v in free(f)) if env else ())
        vals = self.memo.get(k)
        if vals is None:
            vals = [self.ev(x, env) for x in inits]
            for j in self.rounds(n, env):
                e = {b: Fraction(j)}
                for i, v in enumerate(vals):
                    for kd in 'irobslm':
                        e[mk('cv', lvl + i, kd)] = v
                e = self.sub(env, e)
                vals = [self.ev(x, e) for x in bodies]
            self.memo[k] = vals
        return vals[0]


def nonzero(x):
    if x == 0:
        raise Skip('division by zero')
    return x


def isqrt(v):
    if v < 0:
        if v > -Fraction(1, 10 ** 11):
            return Fraction(0)
        raise Skip('sqrt')
    n, d = v.numerator, v.denominator
    if n < 10 ** 60 and d < 10 ** 60:
        r, q = math.isqrt(n), math.isqrt(d)
        if r * r == n and q * q == d:
            return Fraction(r, q)
    return fromf(math.sqrt(fl(v)))


def dom(f):
    def g(*a):
        try:
            return fromf(f(*[fl(x) for x in a]))
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Skip('domain')
    return g


def tdiv(a, b):
    nonzero(b)
    return Fraction(int(a / b))


def clampf(f):
    def g(x):
        if 1 < abs(x) < 1 + Fraction(1, 10 ** 11):
            x = Fraction(1 if x > 0 else -1)
        return dom(f)(x)
    return g


MATH = {'rmul': lambda a, b: a * b, 'rsum': lambda *a: sum(a),
        
    'sin': dom(math.sin), 'cos': dom(math.cos), 'tan': dom(math.tan), 'atan': dom(math.atan),
    'asin': clampf(math.asin), 'acos': clampf(math.acos), 'atan2': dom(math.atan2), 'exp': dom(math.exp),
    'log': dom(math.log), 'hypot': lambda a, b: isqrt(a * a + b * b), 'sqrt': isqrt, 'pow': lambda a, b: a ** int(b) if b.denominator == 1 and abs(b) < 9 and (a != 0 or b > 0) else dom(math.pow)(a, b),
    'fabs': abs, 'abs': abs, 'inv': lambda a: 1 / nonzero(a),
    'floor': lambda a: Fraction(math.floor(nearint(a))), 'ceil': lambda a: Fraction(math.ceil(nearint(a))),
    'trunc': lambda a: Fraction(int(nearint(a))),
    'round': lambda a: Fraction(math.floor(a + Fraction(1, 2)) if a >= 0 else -math.floor(-a + Fraction(1, 2))),
    'fmod': lambda a, b: a - nonzero(b) * int(a / b), 'idiv': tdiv, 'imod': lambda a, b: a - nonzero(b) * int(a / b),
    'max': max, 'min': min,
}


def bitfn(op):
    def g(a, b):
        from . import terms as X
        r = X.bits(op, a, b) if a.denominator == 1 and b.denominator == 1 else None
        if r is None:
            raise Skip('shift out of range')
        return Fraction(r)
    return g


for _op in ('&', '|', '^', '<<', '>>'):
    MATH['bit' + _op] = bitfn(_op)


NPOS = Fraction(2 ** 64 - 1)
# the constants of std::numeric_limits (an infinity is a value larger than any that arises)
LIMITS = {'INFINITY:double': BIG, 'INFINITY:float': BIG, 'MAX:double': Fraction(sys.float_info.max), 'LOWEST:double': -Fraction(sys.float_info.max),
          'MIN:double': Fraction(sys.float_info.min), 'EPSILON:double': Fraction(sys.float_info.epsilon),
          'MAX:unsigned long': NPOS, 'MIN:unsigned long': Fraction(0), 'MAX:unsigned int': Fraction(2 ** 32 - 1), 'MIN:unsigned int': Fraction(0),
          'MAX:int': Fraction(2 ** 31 - 1), 'MIN:int': Fraction(-2 ** 31), 'LOWEST:int': Fraction(-2 ** 31),
          'MAX:long': Fraction(2 ** 63 - 1), 'MIN:long': Fraction(-2 ** 63), 'LOWEST:long': Fraction(-2 ** 63)}


def sfind(how):
    def g(s, t, pos=None):
        if not isinstance(t, str):
            t = chr(int(t))
        if how in ('find', 'rfind'):
            ok = [i for i in range(len(s) - len(t) + 1) if s.startswith(t, i)]
        else:
            ok = [i for i in range(len(s)) if (s[i] in t) != ('not' in how)]
        back = how == 'rfind' or 'last' in how
        if pos is not None:
            ok = [i for i in ok if (i <= pos if back else i >= pos)]
        return NPOS if not ok else Fraction(ok[-1] if back else ok[0])
    return g


def substr(s, a=Fraction(0), n=NPOS):
    if a > len(s) or a < 0:
        raise OOB('substr out of range')
    n = len(s) if n < 0 else n
    return s[int(a):int(min(a + n, len(s)))]


def charat(s, i):
    if not 0 <= i <= len(s):
        raise OOB('character out of range')
    return Fraction(ord(s[int(i)])) if i < len(s) else Fraction(0)


def stoi(s):
    m = re.match(r'\s*([+-]?\d+)', s)
    if not m:
        raise OOB('stoi of no number')
    return Fraction(int(m.group(1)))


def rx(s, pat, how):
    try:
        return (re.search if how == 'regex_search' else re.fullmatch)(pat, s, re.ASCII)
    except re.error:
        raise Unknown('regex')


def rxgroup(s, pat, how, n):
    m = rx(s, pat, how)
    if not m or n > m.re.groups:
        return ''
    return m.group(int(n)) or ''


def replaced(s, a, n, r):
    if a > len(s):
        raise OOB('replace out of range')
    a = int(a)
    return s[:a] + r + s[min(len(s), a + int(n)):]


STRFN = {'strfind': sfind('find'), 'strrfind': sfind('rfind'), 'substr': substr, 'charat': charat, 'stoi': stoi,
         'to_string': lambda v: str(int(v)), 'to_fstring': lambda v: '%f' % fl(v),
         'rxfound': lambda s, p, h: bool(rx(s, p, h)), 'rxgroup': rxgroup,
         'iequals': lambda a, b: a.lower() == b.lower(), 'strreplace': replaced}
for _h in ('find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
    STRFN['str' + _h] = sfind(_h)


def nearint(a):
    """values that are integers up to rounding count as those integers"""
    if a.denominator > 10 ** 13:
        r = round(a)
        if abs(a - r) < Fraction(1, 10 ** 11):
            return Fraction(r)
    return a


class Mismatch:
    def __init__(self, what, got, want, assign, seed):
        self.what, self.got, self.want, self.assign, self.seed = what, got, want, assign, seed


def separate(I, a, b, n=80, seed=1, maxlen=4, time_limit=8.0, total=False):
    """a, b: {'returns': cond, 'throws': [(cond, type)], 'parts': {name: term}}.
    -> ('separated', Mismatch) | ('same', tried) | ('unknown', reason)"""
    import time
    t0 = time.time()
    allterms = [a['returns'], b['returns']] + [x for x in list(a['parts'].values()) + list(b['parts'].values())]
    allterms += [c for c, _ in a['throws'] + b['throws']]
    nums, strs = mined(allterms)
    nums = {x for x in nums if abs(x) < 10 ** 7}
    tried = 0
    reason = None
    lost = skipped = 0
    for k in range(25 * n):
        if time.time() - t0 > (time_limit if k < n else time_limit / 4 if k < 5 * n else time_limit / 8):
            break
        E = Eval(I, '%s/%d' % (seed, k), nums, strs, maxlen if k % 3 else max(1, maxlen - 2))
        E.total = total
        try:
            oa = which(E, a)
            if oa == ('unspecified',):
                continue
            vals = {}
            if oa[0] == 'ret':
                for nm in a['parts']:
                    E.opaque = set()
                    va = E.ev(a['parts'][nm], {})
                    vals[nm] = (va, E.opaque)
            E.opaque = set()
            try:
                ob = which(E, b)
                if ob[0] == 'ret' and oa[0] == 'ret':
                    for nm in a['parts']:
                        E.ev(b['parts'][nm], {})
            except OOB as ex:
                if oa[0] == 'ret' and not E.opaque and not any(o for _, o in vals.values()) and not any(v == DC for v, _ in vals.values()):
                    return 'separated', Mismatch('outcome', ('an access outside of a sequence',), ('a value',), witness(E), k)
                raise
            ops = E.opaque
            if oa != ob:
                if ops:
                    reason = reason or 'opaque callable'
                    continue
                return 'separated', Mismatch('outcome', ob, oa, witness(E), k)
            if oa[0] == 'ret':
                for nm in a['parts']:
                    va, opa = vals[nm]
                    E.opaque = set()
                    vb = E.ev(b['parts'][nm], {})
                    if va == DC:
                        continue
                    if not same(va, vb):
                        if opa != E.opaque:
                            reason = reason or 'opaque callable'
                            continue
                        return 'separated', Mismatch(nm, vb, va, witness(E), k)
            tried += 1
        except Skip:
            skipped += 1
        except Unknown as ex:
            lost += 1
            reason = reason or str(ex)
        except RecursionError:
            lost += 1
            reason = reason or 'recursion'
    if tried >= 3:
        return 'same', '%d agree%s%s' % (tried, ', %d outside of the domain' % skipped if skipped else '', ', %d unknown (%s)' % (lost, reason) if lost else '')
    if tried:
        reason = reason or 'too few interpretations in the domain'
    return 'unknown', reason or 'no interpretation in the domain'


def which(E, r):
    if E.bool(r['returns'], {}):
        return ('ret',)
    for c, ty in r['throws']:
        if E.bool(c, {}):
            if ty.endswith('Unspecified'):
                return ('unspecified',)
            return ('throw', ty)
    raise Skip('no outcome')


def pretty(v, d=0):
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, (int, Fraction)):
        if abs(v) >= BIG:
            return 'inf'
        return '%.6g' % fl(v)
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, tuple):
        if v and v[0] == 'rec':
            return v[1].split('::')[-1] + '{' + ', '.join('%s: %s' % (n, pretty(x, d + 1)) for n, x in v[2:]) + '}'
        if v and v[0] == 'own':
            return '&' + pretty(v[1], d + 1)
        if v and v[0] == 'u':
            return '<value %s>' % v[1][:6]
        return '[' + ', '.join(pretty(x, d + 1) for x in v) + ']'
    return str(v)


def witness(E):
    out = {}
    for (k, uid), v in E.assign.items():
        if len(uid) < 160:
            out[uid[2:] if uid.startswith('u:') else uid] = pretty(v)[:80]
    return dict(sorted(out.items())[:60])
