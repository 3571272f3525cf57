"""Structured abstract interpreter over the extracted, type-resolved program.

One pass per function: branches are joined (never enumerated), loops are summarised to
maps / folds / searches over a normalised index range, callees of the repository are
inlined, external calls are modelled (OGR, GEOS, the standard library).  The result is a
canonical description of what the function returns, what it leaves in every object it can
reach and when it throws."""
import re
from . import terms as X
from .terms import T, TRUE, FALSE, NULL, VOID, NONE, mk, num, ite, and_, or_, not_


class Undecided(Exception):
    pass


class Loc:
    cnt = 0
    __slots__ = ('n', 'name', 'exact', 'type', 'kind')

    def __init__(self, name, type_=None, exact=True, kind='local'):
        Loc.cnt += 1
        self.n = Loc.cnt
        self.name = name
        self.exact = exact
        self.type = type_
        self.kind = kind

    def __repr__(self):
        return '%s@%d' % (self.name, self.n)


class State:
    __slots__ = ('store', 'pc')

    def __init__(self, store, pc):
        self.store = store
        self.pc = pc

    def fork(self, c):
        return State(dict(self.store), and_(self.pc, c))


class Frame:
    def __init__(self, fn, this, env):
        self.fn = fn
        self.this = this
        self.env = env
        self.rets = []
        self.rt = 'void'
        self.refret = False


# ------------------------------------------------------------------ types
_split_memo = {}


def splitargs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def norm(n):
    """name without template arguments"""
    r = _split_memo.get(n)
    if r is not None:
        return r
    out, d = '', 0
    i = 0
    while i < len(n):
        ch = n[i]
        if n.startswith('operator', i) and d == 0:
            # keep operator names (operator<, operator<<, operator->, operator<=)
            m = re.match(r'operator\s*(<<=|>>=|<=>|->\*|<<|>>|<=|>=|->|<|>)', n[i:])
            if m:
                out += m.group(0)
                i += len(m.group(0))
                continue
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
        i += 1
    _split_memo[n] = out
    return out


_tb = {}


def base(t):
    """type without references and top-level const"""
    r = _tb.get(t)
    if r is None:
        r = t.strip()
        while True:
            o = r
            if r.endswith('&&'):
                r = r[:-2].strip()
            elif r.endswith('&'):
                r = r[:-1].strip()
            if r.endswith('const') and not r[:-5].endswith('_'):
                r = r[:-5].strip()
            if r.startswith('const ') and not r.rstrip().endswith('*'):
                r = r[6:].strip()
            if r.startswith('volatile '):
                r = r[9:].strip()
            if r == o:
                break
        _tb[t] = r
    return r


def isref(t):
    return t.rstrip().endswith('&')


def isptr(t):
    return base(t).endswith('*')


def isconst(t):
    t = t.strip()
    t = t.rstrip('&').strip()
    if t.endswith('*'):
        return t[:-1].strip().startswith('const ') or t[:-1].strip().endswith(' const')
    return t.startswith('const ') or t.endswith(' const')


def pointee(t):
    t = base(t)
    return base(t[:-1]) if t.endswith('*') else t


def tmpl(t):
    t = base(t)
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return t, []
    return t[:i], splitargs(t[i + 1:-1])


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short',
        'unsigned short', 'char', 'unsigned char', 'signed char', 'OGRwkbGeometryType', 'OGRErr'}
REALS = {'double', 'float', 'long double'}
OGRKIND = {  # value class -> (field, element class)
    'OGRLineString': 'OGRPoint', 'OGRLinearRing': 'OGRPoint', 'OGRMultiPoint': 'OGRPoint',
    'OGRMultiLineString': 'OGRLineString', 'OGRPolygon': 'OGRLinearRing', 'OGRMultiPolygon': 'OGRPolygon',
}
GEOM = {'f2c::types::LineString': ('OGRLineString', 'f2c::types::Point', 'pt'),
        'f2c::types::LinearRing': ('OGRLinearRing', 'f2c::types::Point', 'pt'),
        'f2c::types::MultiPoint': ('OGRMultiPoint', 'f2c::types::Point', 'pt'),
        'f2c::types::MultiLineString': ('OGRMultiLineString', 'f2c::types::LineString', 'coll'),
        'f2c::types::Cell': ('OGRPolygon', 'f2c::types::LinearRing', 'coll'),
        'f2c::types::Cells': ('OGRMultiPolygon', 'f2c::types::Cell', 'coll')}


class Program:
    def __init__(self, js):
        self.js = js
        self.fns = {}
        for f in js['functions']:
            self.fns.setdefault(f['fn'], f)
        self.recs = {r['n']: r for r in js['records']}
        self.enums = {e['n']: e for e in js['enums']}
        self.vars = js['vars']
        self.over = {}     # method key -> [overriding method keys]
        self.meth = {}
        for r in js['records']:
            for m in r['methods']:
                self.meth[m['fn']] = (r, m)
                for o in m['over']:
                    self.over.setdefault(o, []).append(m['fn'])
        self._fields = {}

    whole = frozenset()

    def fields(self, n):
        if n in self.whole:
            return [('whole', 'whole ' + n, None)]
        r = self._fields.get(n)
        if r is None:
            r = []
            rc = self.recs.get(n)
            if rc:
                for b in rc['bases']:
                    r += self.fields(b)
                if n.startswith('f2c::types::Geometry<'):
                    pass
                r += [(f['n'], f['t'], f.get('init')) for f in rc['fields']]
            self._fields[n] = r
        return r

    def bases(self, n):
        out = [n]
        rc = self.recs.get(n)
        if rc:
            for b in rc['bases']:
                out += self.bases(b)
        return out

    def overriders(self, key, seen=None):
        out = []
        for o in self.over.get(key, []):
            out.append(o)
            out += self.overriders(o)
        return out

    def method_in(self, cls, key):
        """most derived override of method `key` for dynamic class cls"""
        for c in self.bases(cls):
            for m in (self.recs.get(c) or {'methods': []})['methods']:
                if m['fn'] == key or key in m['over'] or key in self.allover(m['fn']):
                    return m['fn']
        return key

    def allover(self, key):
        m = self.meth.get(key)
        r = []
        if m:
            for o in m[1]['over']:
                r.append(o)
                r += self.allover(o)
        return r


# ------------------------------------------------------------------ symbolic values
class Interp:
    MAXDEPTH = 60

    def __init__(self, prog, opaque=None, closed=True):
        self.p = prog
        self.opaque = opaque or (lambda key: False)
        self.stack = []
        self.st = State({}, TRUE)
        self.throws = []
        self.frame = None
        self.oblig = []      # (fn, line, kind, violated-condition term, context)
        self.notes = []
        self.loopdepth = 0
        self.steps = 0
        self.maxsteps = 400000
        self.nphi = 0
        self.vet = {}        # element types of the list variables of loops
        self.trace = []      # calls into opaque things, in order (pc, name)
        self.quiet_oblig = 0
        self.inlined = set()
        X.ELEM['mk'] = self.elem
        X.ELEM['origin'] = self.origin
        X.ELEM['relsym'] = self.relsym
        X.ELEM['etype'] = self.etypemap
        self.pins = {}
        from . import models
        self.models = models

    # ---- symbolic value of a type
    def leaf(self, kind, b, steps, unsigned=False):
        if isinstance(b, tuple) and b[0] == 'n':
            nm = b[1] + ''.join('.' + s for s in steps)
            return X.sym(('u:' if unsigned else '') + nm, kind)
        if isinstance(b, tuple) and b[0] == 'v':
            nm = b[1] + ''.join('.' + s for s in steps)
            return X.var(nm, kind)
        return self.lf(kind, b, tuple(steps) + (('#u',) if unsigned else ()))

    def lf(self, kind, b, steps):
        return mk('lf', kind, b, steps)

    def symval(self, t, b, steps=()):
        t = base(t)
        if t in REALS:
            return self.leaf('r', b, steps)
        if t == 'bool':
            return X.asbool(self.leaf('b', b, steps))
        if t in INTS or t in self.p.enums:
            return self.leaf('i', b, steps, t.startswith('unsigned'))
        if t.startswith('std::basic_string<'):
            return mk('str', ('a', self.leaf('s', b, steps)))
        n, a = tmpl(t)
        if n in ('std::vector', 'std::initializer_list', 'std::deque', 'std::list', 'std::set', 'std::unordered_set'):
            return X.latom(mk('lsym', self.leaf('l', b, steps), base(a[0])))
        if t == 'OGRPoint':
            return X.rec('OGRPoint', [(c, self.leaf('r', b, steps + (c,))) for c in 'xyz'])
        if t in OGRKIND:
            return X.rec(t, [('g', X.latom(mk('lsym', self.leaf('l', b, steps + ('g',)), OGRKIND[t])))])
        if n in ('std::shared_ptr', 'std::unique_ptr'):
            return X.own(self.symval(a[0], b, steps + ('*',)))
        if t.endswith('*'):
            if base(pointee(t)) == 'char':
                return X.own(mk('str', ('a', self.leaf('s', b, steps + ('*',)))))
            return X.own(self.symval(pointee(t), b, steps + ('*',)))
        if n == 'std::optional':
            return X.rec('std::optional', [('has', X.asbool(self.leaf('b', b, steps + ('has',)))), ('val', self.symval(a[0], b, steps + ('val',)))])
        if n == 'std::pair':
            return X.rec('std::pair', [('first', self.symval(a[0], b, steps + ('first',))), ('second', self.symval(a[1], b, steps + ('second',)))])
        if n in ('std::map', 'std::unordered_map'):
            return mk('msym', self.leaf('m', b, steps), base(a[0]), base(a[1]))
        if t in self.p.recs:
            return X.rec(t, [(f, self.symval(ft, b, steps + (f,))) for f, ft, _ in self.p.fields(t)])
        return self.leaf('o', b, steps)

    def elem(self, atom, i):
        et = atom.a[1]
        if atom.op == 'lapp' and atom.a[0] == 'fmap':
            return self.symval(et, mk('pel', atom.a[2][0], i))
        return self.symval(et, mk('pel', X.latom(atom), i))

    def origin(self, e):
        x = e
        for _ in range(12):
            if x.op == 'own':
                x = x.a[0]
            elif x.op == 'rec' and x.a[1]:
                x = x.a[1][0][1]
            elif x.op == 'list' and len(x.a) == 1 and x.a[0][0] == 'l' and x.a[0][1].op == 'lsym':
                x = x.a[0][1].a[0]
            elif x.op == 'str' and len(x.a) == 1 and x.a[0][0] == 'a':
                x = x.a[0][1]
            elif x.op == 'ite' and x.a[1] is TRUE and x.a[2] is FALSE:
                x = x.a[0]
            elif x.op == 'msym':
                x = x.a[0]
            else:
                break
        if x.op != 'lf' or x.a[1].op != 'pel':
            return None
        L, i = x.a[1].a
        if X.at(L, i) is e:
            return L, i
        return None

    def relsym(self, t, go):
        x = t.a[0]
        y = go(x)
        return self.aslist(y, t.a[1])

    def aslist(self, y, et):
        """y (a list, or the name of one; under decisions) as a list"""
        if y.op in ('list', 'top', 'dc'):
            return y
        if y.op == 'ite':
            a, hi, lo = y.a
            h, l = self.aslist(hi, et), self.aslist(lo, et)
            return y if h is hi and l is lo else ite(mk('ite', a, TRUE, FALSE), h, l)
        return X.latom(mk('lsym', y, et))

    # rebuilding of 'lf' / 'pel' / maps
    def rebuild(self, t, go):
        if t.op == 'lf':
            k, b, steps = t.a
            if b.op == 'pel':
                v = X.at(go(b.a[0]), go(b.a[1]))
                return self.stepv(v, steps, k)
            nb = go(b)
            if nb is b:
                return t
            if nb.op == 'call':
                return mk('lf', k, nb, steps)
            if nb.op == 'ite':
                return X.lift('lfb:%s:%s' % (k, steps), lambda q: mk('lf', k, q, steps), nb)
            return mk('lf', k, nb, steps)
        raise Undecided('rebuild ' + t.op)

    def stepv(self, v, steps, k):
        for s in steps:
            if s == '#u':
                continue
            if v.op == 'ite':
                return X.lift('stepv:%s:%s' % (steps, k), lambda q: self.stepv(q, steps, k), v)
            if s == '*':
                if v.op == 'ptr':
                    v = self.load((v.a[0], v.a[1]))
                elif v.op == 'own':
                    v = v.a[0]
                else:
                    return X.top('deref ' + v.op)
            else:
                v = X.fld(v, s)
        if k == 'b' and v.op == 'ite':
            return v
        if k == 's' and v.op == 'str':
            return v
        return v

    # ---------------------------------------------------------------- memory
    def newloc(self, name, v, t=None, exact=True, kind='local'):
        l = Loc(name, t, exact, kind)
        self.st.store[l] = v
        return (l, ())

    def load(self, lv):
        loc, path = lv
        v = self.st.store.get(loc)
        if v is None:
            return X.top('dead location')
        return self.proj(v, path)

    def proj(self, v, path):
        k = 0
        if v.op == 'alias':
            v = self.load((v.a[0], v.a[1]))
        while k < len(path):
            if v.op == 'alias':
                v = self.load((v.a[0], v.a[1]))
            if v.op == 'ite':
                return ite(mk('ite', v.a[0], TRUE, FALSE), self.proj(v.a[1], path[k:]), self.proj(v.a[2], path[k:]))
            if v.op in ('top', 'dc'):
                return v
            s = path[k]
            if s[0] == 'f':
                v = X.fld(v, s[1])
            elif s[0] == 'o':
                if v.op == 'own':
                    v = v.a[0]
                elif v.op == 'ptr':
                    return self.proj(self.load((v.a[0], v.a[1])), path[k + 1:])
                elif v.op == 'null':
                    return NONE
                elif v.op == 'rec' and v.a[0] in OGRKIND:
                    pass    # a member of a collection, seen through its pointer
                else:
                    return X.top('deref of ' + v.op)
            elif s[0] == 'i':
                v = X.at(v, s[1])
            elif s[0] == 'k':
                v = self.mget(v, s[1])
            k += 1
        if v.op == 'alias':
            v = self.load((v.a[0], v.a[1]))
        return v

    def store(self, lv, new):
        loc, path = lv
        if path and loc.name == 'entries' and path[-1] == ('f', 'second'):
            raise Undecided('map entry modified through an iterator')
        cur = self.st.store.get(loc)
        if cur is None:
            cur = X.top('dead')
        self.st.store[loc] = self.put(cur, path, new)

    def put(self, v, path, new):
        if v.op == 'alias':
            self.store((v.a[0], tuple(v.a[1]) + tuple(path)), new)
            return v
        if not path:
            return new
        if v.op == 'ite':
            c = mk('ite', v.a[0], TRUE, FALSE)
            base_ = dict(self.st.store)
            h = self.put(v.a[1], path, new)
            s1 = self.st.store
            self.st.store = dict(base_)
            l = self.put(v.a[2], path, new)
            s2 = self.st.store
            self.st.store = self.mergestores(c, s1, s2)
            return ite(c, h, l)
        if v.op in ('top',):
            return v
        s = path[0]
        if s[0] == 'f':
            return X.setfld(v, s[1], self.put(X.fld(v, s[1]), path[1:], new))
        if s[0] == 'o':
            if v.op == 'own':
                return X.own(self.put(v.a[0], path[1:], new))
            if v.op == 'ptr':
                self.store((v.a[0], tuple(v.a[1]) + tuple(path[1:])), new)
                return v
            if v.op == 'rec' and v.a[0] in OGRKIND:
                return self.put(v, path[1:], new)
            return X.top('write through ' + v.op)
        if s[0] == 'i':
            return X.update(v, s[1], self.put(X.at(v, s[1]), path[1:], new))
        if s[0] == 'k':
            return self.mset(v, s[1], self.put(self.mget(v, s[1]), path[1:], new))
        return X.top('put')

    # maps
    def mget(self, m, k):
        if m.op == 'ite':
            return ite(mk('ite', m.a[0], TRUE, FALSE), self.mget(m.a[1], k), self.mget(m.a[2], k))
        if m.op == 'mset':
            return ite(X.eq(m.a[1], k), m.a[2], self.mget(m.a[0], k))
        if m.op == 'merase':
            return self.mget(m.a[0], k)
        if m.op == 'msym':
            return self.symval(m.a[2], mk('pmap', m, k))
        if m.op == 'mempty':
            return self.default_value(m.a[1]) if m.a and m.a[1] else NONE
        if m.op in ('top', 'dc'):
            return m
        return X.top('mget ' + m.op)

    def mhas(self, m, k):
        if m.op == 'ite':
            return ite(mk('ite', m.a[0], TRUE, FALSE), self.mhas(m.a[1], k), self.mhas(m.a[2], k))
        if m.op == 'mset':
            return or_(X.eq(m.a[1], k), self.mhas(m.a[0], k))
        if m.op == 'merase':
            return and_(not_(X.eq(m.a[1], k)), self.mhas(m.a[0], k))
        if m.op == 'msym':
            return X.asbool(X.app('mhas', 'b', m, k))
        if m.op == 'mempty':
            return FALSE
        return X.top('mhas ' + m.op)

    def mset(self, m, k, v):
        if m.op == 'ite':
            return ite(mk('ite', m.a[0], TRUE, FALSE), self.mset(m.a[1], k, v), self.mset(m.a[2], k, v))
        if m.op == 'top':
            return m
        if m.op == 'mset' and X.eq(m.a[1], k) is TRUE:
            m = m.a[0]
        return mk('mset', m, k, v)

    # ---------------------------------------------------------------- merge
    def mergestores(self, c, s1, s2):
        if s1 is s2:
            return s1
        out = dict(s2)
        for l, v in s1.items():
            w = s2.get(l)
            if w is None:
                out[l] = v
            elif w is not v:
                out[l] = self.merge(c, v, w)
        return out

    def merge(self, c, a, b):
        if a is b:
            return a
        # a handle whose inline storage is compared with a pointer keeps both values
        return ite(c, a, b)

    def join(self, c, s1, s2):
        """state after a branch on c (s1 taken when c)"""
        if s1.pc is FALSE:
            return s2
        if s2.pc is FALSE:
            return s1
        return State(self.mergestores(c, s1.store, s2.store), or_(s1.pc, s2.pc))

    # ---------------------------------------------------------------- sharing copies
    def copyctor(self, cls):
        f = self.p.fns.get('%s::%s(const %s &)' % (cls, cls.split('::')[-1], cls))
        return f if f is not None and f.get('body') and '<' not in cls else None

    def share(self, v, lv, nested=False):
        """value of a member-wise copy of the object at lv: handles share their storage"""
        if v.op == 'own':
            return mk('ptr', lv[0], tuple(lv[1]) + (('o',),))
        if v.op == 'rec' and self.hasown(v):
            if nested:
                f = self.copyctor(v.a[0])
                if f is not None:
                    # a member with a copy constructor of its own
                    l = self.newloc('copy', v, v.a[0])
                    self.invoke(f, l, [lv], ctor=True)
                    return self.load(l)
            return mk('rec', v.a[0], tuple((n, self.share(x, (lv[0], tuple(lv[1]) + (('f', n),)), True)) for n, x in v.a[1]))
        if v.op == 'ite' and self.hasown(v):
            return ite(mk('ite', v.a[0], TRUE, FALSE), self.share(v.a[1], lv, nested), self.share(v.a[2], lv, nested))
        return v

    def share_alias(self, lv):
        """a field standing for the place lv"""
        return mk('alias', lv[0], tuple(lv[1]))

    def hasown(self, v):
        if v.op == 'own':
            return True
        if v.op == 'rec':
            return any(self.hasown(x) for _, x in v.a[1])
        if v.op == 'ite':
            return self.hasown(v.a[1]) or self.hasown(v.a[2])
        return False

    def snap(self, v, depth=0, tag=False):
        """value with every pointer replaced by the value it points to"""
        if depth > 14:
            return X.top('deep')
        op = v.op
        if op == 'ptr':
            loc = v.a[0]
            return X.own(self.snap(self.load((loc, v.a[1])), depth + 1, tag))
        if op == 'own':
            return X.own(self.snap(v.a[0], depth + 1, tag))
        if op == 'rec':
            return mk('rec', v.a[0], tuple((n, self.snap(x, depth + 1, tag)) for n, x in v.a[1]))
        if op == 'ite':
            return ite(mk('ite', v.a[0], TRUE, FALSE), self.snap(v.a[1], depth, tag), self.snap(v.a[2], depth, tag))
        if op == 'list':
            segs = []
            for s in v.a:
                if s[0] == 'e':
                    segs.append(('e', self.snap(s[1], depth + 1, tag)))
                else:
                    segs.append(('l', self.snapatom(s[1], depth)))
            return X.lst(*segs)
        if op == 'mset':
            return mk('mset', self.snap(v.a[0], depth), v.a[1], self.snap(v.a[2], depth + 1))
        return v

    def snapatom(self, t, depth):
        if t.op == 'upd':
            L = self.snap(t.a[0], depth + 1)
            v = self.snap(t.a[2], depth + 1)
            if L is not t.a[0] or v is not t.a[2]:
                r = X.update(L, t.a[1], v)
                return r if r.op != 'list' or len(r.a) != 1 or r.a[0][0] != 'l' else r.a[0][1]
        if t.op == 'fill':
            v = self.snap(t.a[1], depth + 1)
            if v is not t.a[1]:
                return mk('fill', t.a[0], v)
        return t

    def roots(self, v, depth=0, out=None):
        """locations whose storage is reachable from v"""
        if out is None:
            out = set()
        if depth > 14:
            return out
        if v.op == 'ptr':
            if v.a[0] not in out:
                out.add(v.a[0])
                self.roots(self.load((v.a[0], v.a[1])), depth + 1, out)
        else:
            if v.op in ('own', 'rec', 'ite', 'list', 'mset', 'upd', 'fmap'):
                for c in X.children(v):
                    self.roots(c, depth + 1, out)
        return out

    # ---------------------------------------------------------------- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided('step limit')

    def stmt(self, s):
        if s is None or self.st.pc is FALSE:
            return
        self.tick()
        getattr(self, 's_' + s['k'])(s)

    def s_block(self, s):
        for x in s['s']:
            if self.st.pc is FALSE:
                return
            self.stmt(x)

    def s_nop(self, s):
        pass

    def s_expr(self, s):
        self.ev(s['e'], discard=True)

    def s_decl(self, s):
        for v in s['vars']:
            self.declare(v)

    def declare(self, v):
        vi = v['v']
        t = vi['t']
        init = v.get('init')
        if vi.get('static'):
            l = self.newloc(vi['n'], self.val(init) if init is not None and vi.get('constexpr') or init is not None and isconst(t) else X.top('static local'), t)
            self.frame.env[vi['d']] = l
            return
        if isref(t):
            self.frame.env[vi['d']] = self.lv(init)
        else:
            l = self.newloc(vi['n'], NONE, t)
            self.frame.env[vi['d']] = l
            if init is not None:
                self.initinto(l, init, t)
            else:
                self.st.store[l[0]] = self.default_value(t)
        for i, b in enumerate(v.get('binds', [])):
            self.bind(self.frame.env[vi['d']], i, b)

    def bind(self, lv, i, b):
        v = self.load(lv)
        n = ('first', 'second')[i] if i < 2 else None
        if v.op in ('rec', 'ite') and n:
            self.frame.env[b['d']] = (lv[0], tuple(lv[1]) + (('f', n),))
        else:
            self.frame.env[b['d']] = self.newloc(b['n'], X.top('binding'), b['t'])

    def s_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.stmt(s['cv'])
        if 'cc' in s and s.get('constexpr'):
            c = X.bool_(s['cc'])
        else:
            c = X.asbool(self.val(s['c']))
        self.branch(c, lambda: self.stmt(s['a']), lambda: self.stmt(s.get('b')) if s.get('b') else None)

    def branch(self, c, f, g):
        if self.st.pc is FALSE:
            return None, None
        if c is not TRUE and c is not FALSE:
            # consider the condition under the path
            if and_(self.st.pc, c) is FALSE:
                c = FALSE
            elif and_(self.st.pc, not_(c)) is FALSE:
                c = TRUE
        if c is TRUE:
            return f(), None
        if c is FALSE:
            return None, g()
        s0 = self.st
        s1, s2 = s0.fork(c), s0.fork(not_(c))
        self.st = s1
        r1 = f() if s1.pc is not FALSE else None
        s1 = self.st
        self.st = s2
        r2 = g() if s2.pc is not FALSE else None
        s2 = self.st
        self.st = self.join(c, s1, s2)
        return r1, r2

    def s_return(self, s):
        fr = self.frame
        if s.get('e') is None:
            v = VOID
        elif fr.refret:
            lv = self.lv(s['e'])
            v = mk('ptr', lv[0], tuple(lv[1]))
        else:
            v = self.convert(self.val(s['e']), fr.rt)
        if self.st.pc is FALSE:
            return
        fr.rets.append((self.st.pc, v, self.st.store))
        self.st = State(dict(self.st.store), FALSE)

    def s_break(self, s):
        self.loopctx['brk'].append((self.st.pc, self.st.store))
        self.st = State(dict(self.st.store), FALSE)

    def s_continue(self, s):
        self.loopctx['cont'].append((self.st.pc, self.st.store))
        self.st = State(dict(self.st.store), FALSE)

    def s_ustmt(self, s):
        raise Undecided('statement ' + s.get('cls', '?'))

    def s_try(self, s):
        saved = self.throws
        self.throws = []
        self.stmt(s['body'])
        mine = self.throws
        self.throws = saved
        for pc, et, bases, store, line in mine:
            handled = False
            for h in s['handlers']:
                hb = base(h['ct'])
                if h['ct'] == '...' or hb == et or hb in bases:
                    after = self.st
                    self.st = State(dict(store), pc)
                    if h.get('v'):
                        self.frame.env[h['v']['d']] = self.newloc(h['v']['n'], X.sym('exc:' + et, 'o'), h['v']['t'])
                    self.stmt(h['body'])
                    self.st = self.join(pc, self.st, after)
                    handled = True
                    break
            if not handled:
                self.throws.append((pc, et, bases, store, line))

    def s_switch(self, s):
        v = self.val(s['c'])
        items = []
        self.flatcases(s['body'], items)
        # items: list of ('label', value|None) / ('stmt', node)
        labels = [(i, x[1]) for i, x in enumerate(items) if x[0] == 'label']
        conds = {}
        anyc = FALSE
        for i, val in labels:
            if val is not None:
                c = X.eq(v, num(int(val)))
                conds[i] = c
                anyc = or_(anyc, c)
        for i, val in labels:
            if val is None:
                conds[i] = not_(anyc)
        ctx = {'brk': [], 'cont': None}
        saved = getattr(self, 'loopctx', None)
        if saved:
            ctx['cont'] = saved['cont']
        self.loopctx = ctx
        entry = self.st
        none = not_(or_(*conds.values())) if conds else TRUE
        cur = State(dict(entry.store), FALSE)
        for i, x in enumerate(items):
            if x[0] == 'label':
                inc = entry.fork(conds[i])
                cur = self.join(conds[i], inc, cur) if inc.pc is not FALSE else cur
            else:
                self.st = cur
                if cur.pc is not FALSE:
                    self.stmt(x[1])
                cur = self.st
        out = entry.fork(none)
        res = cur
        for pc, store in ctx['brk'] + [(out.pc, out.store)]:
            if pc is FALSE:
                continue
            if res.pc is FALSE:
                res = State(dict(store), pc)
            else:
                res = State(self.mergestores(pc, store, res.store), or_(pc, res.pc))
        self.st = res
        self.loopctx = saved

    def flatcases(self, s, out):
        if s is None:
            return
        if s['k'] == 'block':
            for x in s['s']:
                self.flatcases(x, out)
        elif s['k'] == 'case':
            out.append(('label', s.get('v')))
            self.flatcases1(s['s'], out)
        elif s['k'] == 'default':
            out.append(('label', None))
            self.flatcases1(s['s'], out)
        else:
            out.append(('stmt', s))

    def flatcases1(self, s, out):
        if s is None:
            return
        if s['k'] in ('case', 'default'):
            self.flatcases(s, out)
        else:
            out.append(('stmt', s))

    # ---------------------------------------------------------------- loops
    def s_for(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        self.loop(lambda: X.asbool(self.val(s['c'])) if s.get('c') else TRUE,
                  lambda: self.stmt(s['body']),
                  lambda: self.ev(s['inc'], discard=True) if s.get('inc') else None, s)

    def s_while(self, s):
        def cond():
            if s.get('cv'):
                self.stmt(s['cv'])
            return X.asbool(self.val(s['c']))
        self.loop(cond, lambda: self.stmt(s['body']), lambda: None, s)

    def s_do(self, s):
        # body once, then while
        ctx = {'brk': [], 'cont': []}
        saved = getattr(self, 'loopctx', None)
        self.loopctx = ctx
        self.stmt(s['body'])
        self.loopctx = saved
        for pc, store in ctx['cont']:
            self.st = self.join(pc, State(dict(store), pc), self.st)
        brk = ctx['brk']
        self.loop(lambda: X.asbool(self.val(s['c'])), lambda: self.stmt(s['body']), lambda: None, s)
        for pc, store in brk:
            self.st = self.join(pc, State(dict(store), pc), self.st)

    def s_rfor(self, s):
        """range-for over a vector, list, geometry container or map"""
        rng = s['range']
        rt = base(s['rt'])
        lv = self.lv(rng)
        n, a = tmpl(rt)
        # class used for geometry containers (the range may be typed as a base)
        g = GEOM.get(rt)
        if g is None and rt.startswith('f2c::types::Geometries<'):
            rt = base(a[0])
            g = GEOM.get(rt)
        vi = s['v']

        def bindvar(elv):
            t = vi['t']
            if isref(t):
                self.frame.env[vi['d']] = elv
            else:
                l = self.newloc(vi['n'], NONE, t)
                self.frame.env[vi['d']] = l
                self.st.store[l[0]] = self.share(self.load(elv), elv)
            for i, b in enumerate(s.get('binds', [])):
                self.bind(self.frame.env[vi['d']], i, b)

        if g:
            cst = isconst(s['rt'])
            child = g[1]
            ck = '%s::getGeometry(unsigned long, %s &)' % (rt, child) + (' const' if cst else '')
            sk = '%s::setGeometry(unsigned long, const %s &)' % (rt, child)

            def body(ix):
                e = self.newloc('elem', NONE, child)
                self.construct(child, [], e)
                self.callkey(ck, lv, [self.tmp(ix), e])
                before = self.snap(self.load(e)) if not cst and g[2] == 'pt' else None
                bindvar(e)
                yield
                if before is not None:
                    if self.snap(self.load(e)) is not before:
                        self.callkey(sk, lv, [self.tmp(ix), e])
            size = lambda: self.callkey('%s::size() const' % rt, lv, [])
            self.rangeloop(size, body, lambda: self.stmt(s['body']), s)
            return
        # user class with begin()/end() over an inner vector (Swaths, Route, ...)
        if rt in self.p.recs:
            inner = self.innervec(rt, lv, isconst(s['rt']))
            if inner is None:
                raise Undecided('range-for over ' + rt)
            lv = inner
        v = self.load(lv)
        if v.op == 'ptr':
            lv = (v.a[0], tuple(v.a[1]))
            v = self.load(lv)
        if rt.startswith('nlohmann::basic_json<'):
            doc = self.snap(v)

            def member(ix):
                bindvar(self.newloc('json', X.app('json.at', 'o', doc, ix)))
                yield
            self.rangeloop(lambda: X.app('json.size', 'i', doc), member, lambda: self.stmt(s['body']), s)
            return
        ogr = base(pointee(rt) or rt) if '*' in rt else rt
        if ogr in OGRKIND and v.op == 'rec' and any(k == 'g' for k, _ in v.a[1]):
            lv = (lv[0], tuple(lv[1]) + (('f', 'g'),))
            v = self.load(lv)
        if v.op in ('msym', 'mset', 'merase', 'mempty') or n in ('std::map', 'std::unordered_map'):
            kt, vt = base(a[0]), base(a[1])
            ents = X.lapp('entries', 'std::pair<%s, %s>' % (kt, vt), self.snap(v))
            lv = self.newloc('entries', ents)

        def body2(ix):
            bindvar((lv[0], tuple(lv[1]) + (('i', ix),)))
            yield
        self.rangeloop(lambda: X.length(self.load(lv)), body2, lambda: self.stmt(s['body']), s)

    def innervec(self, rt, lv, const):
        key = '%s::begin() const' % rt if const else '%s::begin()' % rt
        f = self.p.fns.get(key) or self.p.fns.get('%s::begin() const' % rt)
        if not f:
            return None
        it = self.callkey(f['fn'], lv, [])
        if it.op == 'iter' and isinstance(it.a[0], tuple):
            return it.a[0]
        return None

    def rangeloop(self, sizef, elem, body, s):
        """for ix in [0,size): elem(ix) around body()"""
        n = sizef()
        idx = self.newloc('ix', X.ZERO, 'unsigned long')

        def one():
            gen = elem(self.load(idx))
            next(gen)
            ctx = {'brk': self.loopctx['brk'], 'cont': []}
            saved = self.loopctx
            self.loopctx = ctx
            body()
            self.loopctx = saved
            for pc, store in ctx['cont']:
                self.st = self.join(pc, State(dict(store), pc), self.st)
            if self.st.pc is not FALSE:
                try:
                    next(gen)
                except StopIteration:
                    pass
        self.loop(lambda: X.lt(self.load(idx), n), one,
                  lambda: self.store(idx, X.add(self.load(idx), X.ONE)), s)

    def typeat(self, loc, path):
        """declared type of a place"""
        t = base(str(loc.type or ''))
        for q in path:
            if not t:
                return None
            n, a = tmpl(t)
            if q[0] == 'f':
                t = dict((f, ft) for f, ft, _ in self.p.fields(t)).get(q[1]) if t in self.p.recs else None
            elif q[0] == 'i':
                t = a[0] if a and n in ('std::vector', 'std::array', 'std::deque', 'std::list') else None
            elif q[0] == 'k':
                t = a[1] if len(a) > 1 else None
            else:
                t = pointee(t) if t.endswith('*') else a[0] if a else None
            t = base(t) if t else None
        return t

    def shape(self, v, name, t=None):
        """fresh symbols with the shape of v"""
        r = self._shape1(v, name, t)
        if r.op == 'list' and r.a[0][1].op == 'lsym':
            self.vet[r.a[0][1].a[0]] = r.a[0][1].a[1]
        return r

    def _shape1(self, v, name, t):
        if t and base(t) in REALS and self.shapekind(v) == 'num':
            return X.var(name, 'r')     # a real, whatever value it starts from
        r = self._shape(v, name)
        if t and r.op == 'list' and r.a[0][1].op == 'lsym' and '?' in str(r.a[0][1].a[1]):
            n, a = tmpl(t)
            if n in ('std::vector', 'std::deque', 'std::list') and a:
                return X.latom(mk('lsym', r.a[0][1].a[0], base(a[0])))
        if t and r.op == 'msym' and '?' in r.a[1] + r.a[2]:
            n, a = tmpl(t)
            if n in ('std::map', 'std::unordered_map'):
                return mk('msym', r.a[0], base(a[0]), base(a[1]))
        return r

    def _shape(self, v, name):
        op = v.op
        if op == 'rec':
            ft = {f: q for f, q, _ in self.p.fields(v.a[0])} if v.a[0] in self.p.recs else {}
            return mk('rec', v.a[0], tuple((n, self.shape(x, name + '.' + n, ft.get(n) or ('double' if v.a[0].startswith('OGR') else None))) for n, x in v.a[1]))
        if op == 'own':
            return X.own(self.shape(v.a[0], name + '*'))
        if op == 'ptr':
            return X.own(self.shape(self.load((v.a[0], v.a[1])), name + '*'))
        if op == 'iter':
            return mk('iter', v.a[0], X.var(name, 'i'))
        if op == 'str':
            return mk('str', ('a', X.var(name, 's')))
        if op == 'list':
            return X.latom(mk('lsym', X.var(name, 'l'), self.etype(v)))
        if op in ('msym', 'mset', 'merase', 'mempty'):
            k, t = self.mtypes(v)
            return mk('msym', X.var(name, 'm'), k, t)
        if op == 'ite':
            ks = {self.shapekind(x) for x in self.leaves(v)}
            if len(ks) == 1:
                k = ks.pop()
                if k == 'num':
                    return X.var(name, 'r' if any(X.kind(x) == 'r' for x in self.leaves(v)) else 'i')
                if k == 'b':
                    return X.asbool(X.var(name, 'b'))
                return self.shape(self.leaves(v)[0], name)
            return X.var(name, 'o')
        if op in ('true', 'false'):
            return X.asbool(X.var(name, 'b'))
        k = X.kind(v)
        if op == 'lf':
            k = v.a[0]
        if k in ('i', 'r'):
            return X.var(name, k)
        if k == 'b':
            return X.asbool(X.var(name, 'b'))
        return X.var(name, 'o')

    def leaves(self, v):
        if v.op == 'ite':
            return self.leaves(v.a[1]) + self.leaves(v.a[2])
        return [v]

    def shapekind(self, v):
        if v.op in ('true', 'false'):
            return 'b'
        k = X.kind(v)
        if v.op == 'lf':
            k = v.a[0]
        if k in ('i', 'r'):
            return 'num'
        if v.op == 'ptr':
            return 'own'
        return v.op

    def etypemap(self, t):
        """class of the elements of a filtered sequence"""
        if t.op != 'fmap':
            return None
        et = self.etype_(t.a[1])
        return et if et in self.p.recs and et.startswith('f2c::') or et == 'OGRPoint' or et in OGRKIND else None

    def etype_(self, v):
        """element type of a list under any decisions"""
        for x in self.leaves(v):
            if x.op == 'list':
                r = self.etype(x)
                if r != '?':
                    return r
        return '?'

    def etype(self, v):
        for s in v.a:
            if s[0] == 'l' and s[1].op in ('lsym', 'lapp'):
                if s[1].a[1] != '?':
                    return s[1].a[1]
                continue
            if s[0] == 'l' and s[1].op in ('upd', 'rev', 'slice'):
                r = self.etype(s[1].a[0])
                if r != '?':
                    return r
            if s[0] == 'l' and s[1].op == 'fmap' and s[1].a[1].op == 'list':
                r = self.etype(s[1].a[1])
                if r != '?':
                    return r
            if s[0] == 'e' or s[0] == 'l' and s[1].op == 'fill':
                x = s[1] if s[0] == 'e' else s[1].a[1]
                while x.op == 'ite':
                    x = x.a[1]
                if x.op == 'rec':
                    if x.a[0] == 'std::pair':
                        return 'std::pair<%s>' % ', '.join(self.vtype(y) for _, y in x.a[1])
                    return x.a[0]
                k = X.kind(x)
                if x.op == 'lf':
                    k = x.a[0]
                if k in ('i', 'r', 'b'):
                    return {'i': 'long', 'r': 'double', 'b': 'bool'}[k]
                if x.op == 'list':
                    return 'std::vector<%s>' % self.etype(x)
        return '?'

    def vtype(self, x):
        while x.op == 'ite':
            x = x.a[1]
        if x.op == 'rec':
            return x.a[0]
        if x.op == 'list':
            return 'std::vector<%s>' % self.etype(x)
        k = x.a[0] if x.op == 'lf' else X.kind(x)
        return {'i': 'long', 'r': 'double', 'b': 'bool'}.get(k, '?')

    def mtypes(self, v):
        while v.op in ('mset', 'merase', 'ite'):
            v = v.a[1 if v.op == 'ite' else 0]
        if v.op == 'msym':
            return v.a[1], v.a[2]
        if v.op == 'mempty':
            return v.a[0], v.a[1]
        return '?', '?'

    def diffpaths(self, a, b, pre, out, depth=0):
        """field paths (no indices) where a and b differ"""
        if a is b:
            return
        if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            for (n, x), (m, y) in zip(a.a[1], b.a[1]):
                self.diffpaths(x, y, pre + (('f', n),), out, depth + 1)
            return
        if a.op == 'own' and b.op == 'own':
            self.diffpaths(a.a[0], b.a[0], pre + (('o',),), out, depth + 1)
            return
        if a.op == 'list' and b.op == 'list' and len(a.a) == 1 and len(b.a) == 1 and a.a[0][0] == 'l' and b.a[0][0] == 'l':
            x, y = a.a[0][1], b.a[0][1]
            if x.op == 'upd' and y.op == 'upd' and x.a[0] is y.a[0] and x.a[1] is y.a[1]:
                self.diffpaths(x.a[2], y.a[2], pre + (('i', x.a[1]),), out, depth + 1)
                return
        out.add(pre)

    def loop(self, cond, body, inc, s):
        if self.st.pc is FALSE:
            return
        self.loopdepth += 1
        try:
            self._loop(cond, body, inc, s)
        finally:
            self.loopdepth -= 1

    def _loop(self, cond, body, inc, s):
        S0 = self.st
        pc0 = S0.pc
        base_store = S0.store
        pre = set(base_store)
        W = {}        # (loc, path) -> phi value
        pins = {}
        nopin = set()
        noelem = set()
        outer_throws = self.throws
        outer_rets = self.frame.rets
        outer_ctx = getattr(self, 'loopctx', None)
        n_oblig = len(self.oblig)
        n_trace = len(self.trace)
        tag = 'L%d' % self.loopdepth
        self.nphi += 1
        lid = self.nphi

        def run(W, assume=TRUE, conc=None):
            """one iteration from the phi state; returns everything it produced"""
            del self.oblig[n_oblig:]
            del self.trace[n_trace:]
            st = dict(base_store)
            self.st = State(st, assume)
            for (loc, path), ph in W.items():
                self.store((loc, path), ph)
            start = dict(self.st.store)
            self.throws = []
            self.frame.rets = []
            self.loopctx = {'brk': [], 'cont': []}
            c = cond()
            headthrows = self.throws
            self.throws = []
            cst = self.st
            exitstore = dict(cst.store)
            self.st = State(dict(cst.store), and_(assume, c))
            if self.st.pc is not FALSE:
                body()
            for pc, store in self.loopctx['cont']:
                self.st = self.join(pc, State(dict(store), pc), self.st)
            if self.st.pc is not FALSE:
                inc()
            return dict(c=c, end=self.st, start=start, exit=exitstore, throws=self.throws, hthrows=headthrows,
                        rets=self.frame.rets, brk=self.loopctx['brk'])

        try:
            # fixpoint on the set of modified places
            for rnd in range(12):
                r = run(W)
                new = set()
                stores = [r['end'].store] if r['end'].pc is not FALSE else []
                stores.append(r['exit'])
                for st in stores:
                    for loc in pre:
                        a, b = r['start'].get(loc), st.get(loc)
                        if a is not b and a is not None and b is not None:
                            out = set()
                            self.diffpaths(a, b, (), out)
                            for p in out:
                                new.add((loc, p))
                new = {k for k in new if k not in W and not any(k[0] is w[0] and k[1][:len(w[1])] == w[1] for w in W)}
                # break / return paths may modify too; they are handled with their own stores
                if not new:
                    # pin lengths of lists that are only updated in place: assume the length
                    # is the initial one, and keep the assumption when the body preserves it
                    cand = {}
                    # a list updated only at an index the loop does not change: the element is
                    # the modified place
                    moved = False
                    if r['end'].pc is not FALSE:
                        allv = set()
                        for ph in W.values():
                            allv |= X.fv(ph)
                        for k, ph in list(W.items()):
                            if ph.op == 'list' and k not in noelem and len(ph.a) == 1 and ph.a[0][1].op == 'lsym':
                                g = self.assume(self.projs(r['end'].store, k[0], k[1]), r['c'])
                                u = self.updform(g, ph.a[0][1].a[0])
                                noelem.add(k)
                                if u is not None and not (X.fv(u[0]) & allv) and u[0].op != 'ite':
                                    v = self.projs(base_store, k[0], k[1])
                                    x = X.update(v, u[0], NONE)
                                    if x.op == 'list' and len(x.a) == 1 and x.a[0][0] == 'l' and x.a[0][1].op == 'upd':
                                        self.st = State(dict(base_store), TRUE)
                                        del W[k]
                                        out = set()
                                        self.diffpaths(X.at(ph, u[0]), u[1], (('i', u[0]),), out)
                                        for q in sorted(out, key=str):
                                            e = self.projs(base_store, k[0], k[1] + q)
                                            self.st = State(dict(base_store), TRUE)
                                            self.nphi += 1
                                            W[(k[0], k[1] + q)] = self.shape(e, 'ph%d_%d_%d' % (lid, k[0].n, self.nphi), self.typeat(k[0], k[1] + q))
                                        moved = True
                    if moved:
                        continue
                    if r['end'].pc is not FALSE:
                        for k, ph in W.items():
                            if ph.op == 'list' and k not in pins and k not in nopin and len(ph.a) == 1 and ph.a[0][1].op == 'lsym':
                                n0 = X.length(self.projs(base_store, k[0], k[1]))
                                if not X.tops(n0):
                                    cand[k] = n0
                    if not cand:
                        break
                    good = set(cand)
                    while True:
                        for k in good:
                            X._PINS[W[k].a[0][1]] = cand[k]
                        r = run(W) if good else r
                        bad = set()
                        if r['end'].pc is not FALSE:
                            for k in good:
                                f = self.assume(self.projs(r['end'].store, k[0], k[1]), r['c'])
                                if X.length(f) is not cand[k]:
                                    bad.add(k)
                        if not bad:
                            break
                        # a refuted assumption: fresh symbols, try the others again
                        good -= bad
                        nopin |= bad
                        for k in cand:
                            v = self.projs(base_store, k[0], k[1])
                            self.nphi += 1
                            self.st = State(dict(base_store), TRUE)
                            W[k] = self.shape(v, 'ph%d_%d_%d' % (lid, k[0].n, self.nphi), self.typeat(*k))
                    for k in good:
                        pins[k] = cand[k]
                    continue
                for k in new:
                    # drop narrower ones
                    for w in list(W):
                        if w[0] is k[0] and w[1][:len(k[1])] == k[1]:
                            del W[w]
                for loc, p in sorted(new, key=lambda k: (k[0].n, str(k[1]))):
                    v = self.projs(base_store, loc, p)
                    self.st = State(dict(base_store), TRUE)
                    W[(loc, p)] = self.shape(v, ('u:' if not p and str(loc.type).startswith('unsigned') else '') + 'ph%d_%d%s' % (lid, loc.n, ''.join('.' + str(q[1]) if len(q) > 1 else '*' for q in p)), self.typeat(loc, p))
            else:
                raise Undecided('loop widening did not stabilise')
            self.summarise(W, r, run, base_store, pc0, s, outer_throws, outer_rets, lid)
        except Undecided:
            raise
        finally:
            self.throws = outer_throws
            self.frame.rets = outer_rets
            self.loopctx = outer_ctx

    def projs(self, store, loc, path):
        cur = self.st
        self.st = State(store, TRUE)
        try:
            return self.proj(store[loc], path)
        finally:
            self.st = cur

    def assume(self, t, c):
        """t simplified knowing c (conjunctions only)"""
        for _ in range(12):
            if c is TRUE or c is FALSE or c.op != 'ite':
                return t
            a, hi, lo = c.a
            if lo is FALSE:
                t = self.deeprestrict(t, a, True)
                c = hi
            elif hi is FALSE:
                t = self.deeprestrict(t, a, False)
                c = lo
            else:
                return t
        return t

    def deeprestrict(self, t, a, v):
        k = ('drs', t, a, v)
        r = X._memo.get(k)
        if r is None:
            if t.op == 'ite':
                r = X.restrict(t, a, v)
            elif t.op == 'rec':
                r = mk('rec', t.a[0], tuple((n, self.deeprestrict(x, a, v)) for n, x in t.a[1]))
            elif t.op == 'own':
                r = X.own(self.deeprestrict(t.a[0], a, v))
            elif t.op == 'list':
                r = X.lst(*[(s[0], self.deeprestrict(s[1], a, v)) if s[0] == 'e' else s for s in t.a])
            else:
                r = t
            X._memo[k] = r
        return r

    def phivars(self, ph):
        return X.fv(ph)

    def summarise(self, W, r, run, base_store, pc0, s, outer_throws, outer_rets, lid):
        keys = list(W)
        init = {}
        cur = self.st
        for k in keys:
            self.st = State(dict(base_store), TRUE)
            init[k] = self.snapphi(self.projs(base_store, k[0], k[1]), W[k])
        phis = {k: self.phivars(W[k]) for k in keys}
        allph = set()
        for v in phis.values():
            allph |= v
        c = r['c']
        end = r['end']
        ix = X.var('ix%d' % lid, 'i')
        phmap = {}
        for k in keys:
            self.leafmap(W[k], init[k], phmap)  # leaf var -> init leaf value

        # per-leaf step functions
        def stepfns(r):
            f = {}
            for k in keys:
                if r['end'].pc is FALSE:
                    continue
                v = self.projs(r['end'].store, k[0], k[1])
                cur = self.st
                self.st = State(dict(r['end'].store), TRUE)
                v = self.snapphi(v, W[k])
                self.st = cur
                v = self.assume(v, r['c'])
                self.leafmap(W[k], v, f)
            return f
        f = stepfns(r)
        # ---- trip count
        exits = []   # conditions (under c) leaving the loop early
        n = None
        indvar = None
        conj = self.conjuncts(c)
        extra = []
        if not (allph & X.fv(c)) and c is not FALSE and not (c is TRUE):
            # condition does not change: either zero or endless (unless left by break/return)
            n = None
        for cj in conj:
            vs = X.fv(cj) & allph
            if len(vs) >= 1 and n is None:
                got = self.trip(cj, allph, f, phmap)
                if got:
                    indvar, n = got
                    continue
            extra.append(cj)
        if c is FALSE:
            n = X.ZERO
        endless = c is TRUE
        if n is None and not endless:
            # bounded only by its own condition: the first iteration at which it fails
            endless = True
        if n is None:
            n = X.sym('INFTY', 'i')
        # ---- solve recurrences in dependency order
        sol = {}     # leaf var -> closed form as a function of ix (value at start of iteration ix)
        pend = dict(f)
        for v in list(phmap):
            if v not in pend:
                pend[v] = v
        progress = True

        def sub(t):
            return X.subst(t, sol) if sol and (X.fv(t) & set(sol)) else t
        while pend and progress:
            progress = False
            for v in list(pend):
                g = sub(pend[v])
                if extra or True:
                    g = self.assume(g, X.lt(ix, n) if n.op != 'sym' or n.a[0] != 'INFTY' else TRUE)
                deps = (X.fv(g) & allph)
                got = self.solve1(v, g, deps - {v}, phmap[v], ix, n)
                if got is not None:
                    sol[v] = got
                    del pend[v]
                    progress = True
        if pend:
            for v, val in self.solvecoupled(pend, sub, phmap, ix, n, sol).items():
                sol[v] = val
        # ---- exits
        ctot = TRUE
        for cj in extra:
            exits.append(('cond', not_(cj)))
        notex = and_(*extra)
        brks = [(and_(notex, pc), store) for pc, store in r['brk']]
        rets = [(and_(notex, pc), v, store) for pc, v, store in r['rets']]
        thr = [(and_(notex, pc), et, b, store, l) for pc, et, b, store, l in r['throws']]
        hthr = r['hthrows']
        inloop = X.lt(ix, n) if not (n.op == 'sym' and n.a[0] == 'INFTY') else TRUE

        solkeys = set(sol)
        bysol = X.substituter(sol)

        def res(t):
            t = bysol(t) if X.fv(t) & solkeys else t
            return self.assume(t, inloop)
        early = FALSE
        conds = []
        for kind, cc in exits:
            conds.append(('cond', res(cc), r['exit'], None))
        for pc, store in brks:
            conds.append(('brk', res(self.assume(pc, c)), store, None))
        for pc, v, store in rets:
            conds.append(('ret', res(self.assume(pc, c)), store, v))
        for pc, et, b, store, l in thr + hthr:
            conds.append(('throw', res(self.assume(pc, c)), store, (et, b, l)))
        conds = [x for x in conds if x[1] is not FALSE]
        E = or_(*[x[1] for x in conds]) if conds else FALSE
        if X.tops(E):
            self.unknown_loop(W, keys, base_store, pc0, outer_throws, r, s)
            return
        # obligations recorded in the last run: close over the iteration
        self.closeoblig(ix, n, sol, inloop, lid)

        def closed(t, at_):
            """value of t (over phi leaves) at iteration index at_"""
            t = bysol(t) if X.fv(t) & solkeys else t
            if ix in X.fv(t):
                g = byix.get(at_)
                if g is None:
                    g = byix[at_] = X.substituter({ix: at_})
                t = g(t)
            return t
        byix = {}

        if endless and E is FALSE:
            self.notes.append(('endless loop', s.get('l')))
            self.st = State(dict(base_store), FALSE)
            return
        K = None
        if E is not FALSE:
            hit = X.any_(n, ix, E) if not endless else TRUE
            K = X.first_(n, ix, E)
        else:
            hit = FALSE
        # normal completion
        fin = State(dict(base_store), and_(pc0, not_(hit)))
        self.st = fin
        memoK = {}
        for k in keys:
            fin_v = self.rebuildphi(W[k], lambda v: closed(v, n))
            self.store(k, fin_v)
        fin = State(self.st.store, fin.pc)
        out = fin
        results = []
        rest = hit
        for kind, cc, store, payload in conds:
            ck = X.subst(cc, {ix: K}) if ix in X.fv(cc) else cc
            here = and_(pc0, rest, ck) if len(conds) > 1 else and_(pc0, rest)
            if len(conds) > 1:
                rest = and_(rest, not_(ck))
            if here is FALSE:
                continue
            # store at the exit: everything of the iteration, with phis closed at K
            ns = dict(base_store)
            m = dict(sol)
            cl = lambda t: closed(t, K)
            for loc, v in store.items():
                if loc in base_store:
                    w = base_store[loc]
                    if v is w:
                        continue
                    ns[loc] = self.mapval(v, cl)
                else:
                    ns[loc] = self.mapval(v, cl)
            if kind in ('brk', 'cond'):
                out = self.join(here, State(ns, here), out)
            elif kind == 'ret':
                outer_rets.append((here, self.mapval(payload, cl), ns))
            else:
                et, b, l = payload
                outer_throws.append((here, et, b, ns, l))
        self.st = out

    def closeoblig(self, ix, n, sol, inloop, lid):
        pass

    def mapval(self, v, f):
        if v.op == 'ptr':
            return mk('ptr', v.a[0], tuple((p[0], f(p[1])) if len(p) > 1 and isinstance(p[1], T) else p for p in v.a[1]))
        return f(v)

    def snapphi(self, v, ph):
        """v in the shape of ph (pointers resolved to values)"""
        return self.snap(v)

    def leafmap(self, ph, v, out):
        """match the leaves of the phi value with the corresponding parts of v"""
        if ph.op == 'rec':
            for n, x in ph.a[1]:
                self.leafmap(x, X.fld(v, n), out)
        elif ph.op == 'own':
            y = self.unown(v)
            self.leafmap(ph.a[0], y, out)
        elif ph.op == 'iter':
            out[ph.a[1]] = self.iterpos(v, ph)
        elif ph.op == 'str':
            out[ph.a[0][1]] = v
        elif ph.op == 'list':
            out[ph.a[0][1].a[0]] = v
        elif ph.op == 'msym':
            out[ph.a[0]] = v
        elif ph.op == 'ite':
            out[ph.a[0]] = v
        elif ph.op == 'var':
            out[ph] = v

    def unown(self, v):
        if v.op == 'own':
            return v.a[0]
        if v.op == 'ite':
            return ite(mk('ite', v.a[0], TRUE, FALSE), self.unown(v.a[1]), self.unown(v.a[2]))
        if v.op in ('dc', 'top'):
            return v
        return X.top('unown ' + v.op)

    def iterpos(self, v, ph):
        if v.op == 'iter' and v.a[0] == ph.a[0]:
            return v.a[1]
        if v.op == 'ite':
            return ite(mk('ite', v.a[0], TRUE, FALSE), self.iterpos(v.a[1], ph), self.iterpos(v.a[2], ph))
        return X.top('iterator')

    def rebuildphi(self, ph, f):
        if ph.op == 'rec':
            return mk('rec', ph.a[0], tuple((n, self.rebuildphi(x, f)) for n, x in ph.a[1]))
        if ph.op == 'own':
            return X.own(self.rebuildphi(ph.a[0], f))
        if ph.op == 'iter':
            return mk('iter', ph.a[0], f(ph.a[1]))
        return f(ph)

    def conjuncts(self, c):
        out = []
        while c.op == 'ite':
            a, hi, lo = c.a
            if lo is FALSE:
                out.append(mk('ite', a, TRUE, FALSE))
                c = hi
            elif hi is FALSE:
                out.append(mk('ite', a, FALSE, TRUE))
                c = lo
            else:
                out.append(c)
                return out
        if c is not TRUE:
            out.append(c)
        return out

    def trip(self, cj, allph, f, phmap):
        """(induction variable, trip count) when cj is a linear bound on one"""
        a, hi, lo = cj.a
        if not (X.fv(a) & allph):
            # decided before the loop: the bound depends on it
            got = [(None, X.ZERO) if x is FALSE else None if x is TRUE or x.op != 'ite' else self.trip(x, allph, f, phmap) for x in (hi, lo)]
            if None in got or (got[0][0] and got[1][0] and got[0][0] is not got[1][0]):
                return None
            return got[0][0] or got[1][0], ite(mk('ite', a, TRUE, FALSE), got[0][1], got[1][1])
        if not ((hi is TRUE and lo is FALSE) or (hi is FALSE and lo is TRUE)):
            return None
        pos = hi is TRUE
        if a.op not in ('lt', 'eq0'):
            return None
        p = a.a[0]
        # linear in induction variables; all other phi leaves must be invariant
        tot = None
        slope = X.ZERO
        m0 = {}
        for v in X.fv(p) & allph:
            g = f.get(v, v)
            if g is v:
                m0[v] = phmap[v]
                continue
            d = X.sub(g, v) if X.kind(v) in ('i', 'r') else None
            if d is None or d.op != 'num':
                return None
            # p must be linear in v with constant coefficient
            k = self.coef(p, v)
            if k is None:
                return None
            slope = X.add(slope, X.mul(k, d))
            m0[v] = phmap[v]
            tot = v
        if tot is None or slope.op != 'num' or slope.a[0] == 0:
            return None
        p0 = X.subst(p, m0)
        sl = slope.a[0]
        if a.op == 'lt':
            if pos and sl > 0:
                need = X.neg(p0)             # iterations until p >= 0
            elif not pos and sl < 0:
                # continue while p >= 0
                need = X.add(p0, X.ONE) if X.kind(p0) == 'i' else None
                sl = -sl
                if need is None:
                    return tot, X.add(X.fn1('floor', X.div(p0, num(sl))), X.ONE)
            else:
                return None
        else:
            if pos:
                return None
            need = X.neg(p0) if sl > 0 else p0
            sl = abs(sl)
            if sl != 1:
                return tot, X.div(need, num(sl))
            return tot, self.max0(need)
        if X.kind(need) == 'i' and sl.denominator == 1:
            n = need if sl == 1 else X.idiv(X.add(need, num(sl - 1)), num(sl))
            if sl != 1:
                return tot, ite(X.lt(X.ZERO, need), n, X.ZERO)
        else:
            n = X.fn1('ceil', X.div(need, num(sl)))
            return tot, ite(X.lt(X.ZERO, need), n, X.ZERO)
        return tot, self.max0(n)

    def max0(self, n):
        return ite(X.lt(n, X.ZERO), X.ZERO, n)

    def coef(self, p, v):
        k = X.ZERO
        for m, c in X._items(p):
            occ = [(at, e) for at, e in m if v in X.fv(at)]
            if not occ:
                continue
            if len(m) == 1 and occ[0][0] is v and occ[0][1] == 1:
                k = X.add(k, num(c))
            else:
                return None
        return k

    # ---- recurrences
    def solve1(self, v, g, deps, init, ix, n):
        """closed form (at the start of iteration ix) of v := g(v, ix), v(0)=init; None when not yet solvable"""
        if g is v or g.op == 'dc' or self.selfvalue(v, g):
            return init
        if deps:
            return None
        k = v.a[1]
        if v not in X.fv(g):
            # depends on the iteration only
            prev = X.subst(g, {ix: X.sub(ix, X.ONE)}) if ix in X.fv(g) else g
            return ite(X.lt(ix, X.ONE), init, prev)
        if k in ('i', 'r'):
            d = X.sub(g, v)
            if v not in X.fv(d) and d.op != 'top':
                j = X.var('ixs_' + ix.a[0], 'i')
                dd = X.subst(d, {ix: j})
                return X.add(init, X.sum_(ix, j, dd))
            # guarded constant: g = ite(c(ix), const(ix), v)
            r = self.latch(v, g, init, ix)
            if r is not None:
                return r
            j = X.var('ixs_' + ix.a[0], 'i')
            return X.fold_('r' if k == 'r' else 'i', ix, j, v, init, X.subst(g, {ix: j}))
        if k == 'b':
            gv = X.asbool(v)
            hi = X.restrict(g, v, True) if g.op == 'ite' else g
            lo = X.restrict(g, v, False) if g.op == 'ite' else g
            j = X.var('ixs_' + ix.a[0], 'i')
            if hi is TRUE:      # v or lo
                return or_(init, X.any_(ix, j, X.subst(lo, {ix: j})))
            if lo is FALSE:     # v and hi
                return and_(init, not_(X.any_(ix, j, not_(X.subst(hi, {ix: j})))))
            if lo is not_(hi) and v not in X.fv(hi):
                pass
            return X.asbool(X.fold_('b', ix, j, v, init, X.subst(g, {ix: j})))
        if k == 'l':
            return self.solvelist(v, g, init, ix, n)
        if k == 's':
            # string append
            me = mk('str', ('a', v))
            r = self.strsuffix(g, v)
            j = X.var('ixs_' + ix.a[0], 'i')
            if r is not None:
                a = X.fold_('s', ix, j, X.var('cat', 's'), X.strc(''), X.subst(r, {ix: j})) if False else \
                    mk('str', ('a', mk('app', 'strjoin', 's', (self.absb(ix, j, X.subst(r, {ix: j})),))))
                return X.strcat(init, a)
            return X.top('string recurrence')
        if k == 'm':
            # map insertions
            j = X.var('ixs_' + ix.a[0], 'i')
            return wrapmap(X.fold_('m', ix, j, v, init, X.subst(g, {ix: j})), *self.mtypes(init))
        j = X.var('ixs_' + ix.a[0], 'i')
        return X.fold_('o', ix, j, v, init, X.subst(g, {ix: j}))

    def absb(self, n, j, t):
        b = X.bvfor(t)
        return mk('app', 'upto', 'o', (n, X.subst(t, {j: b}), b))

    def strsuffix(self, g, v):
        if g.op == 'str' and g.a and g.a[0] == ('a', v) and v not in X.fv(mk('str', *g.a[1:])):
            return mk('str', *g.a[1:])
        if g.op == 'ite':
            if v in X.fv(g.a[0]):
                return None
            h, l = self.strsuffix(g.a[1], v), self.strsuffix(g.a[2], v)
            if h is None or l is None:
                return None
            return ite(mk('ite', g.a[0], TRUE, FALSE), h, l)
        return None

    def selfvalue(self, v, g):
        k = v.a[1]
        if k == 'b':
            return g is X.asbool(v)
        if k == 's':
            return g is mk('str', ('a', v))
        if k == 'l':
            return g.op == 'list' and len(g.a) == 1 and g.a[0][0] == 'l' and g.a[0][1].op == 'lsym' and g.a[0][1].a[0] is v
        if k == 'm':
            return g.op == 'msym' and g.a[0] is v
        return False

    def latch(self, v, g, init, ix):
        """v := c(ix) ? t : v with c free of v: last (or, when constant, any) assignment"""
        if g.op != 'ite':
            return None
        # collect: condition under which v is kept
        keep = self.keepcond(g, v)
        if keep is None or v in X.fv(keep):
            return None
        other = X.ite(keep, NONE, g)
        if v in X.fv(other) or ix in X.fv(other):
            return None
        j = X.var('ixs_' + ix.a[0], 'i')
        if other.op == 'ite':
            return None
        return ite(X.any_(ix, j, not_(X.subst(keep, {ix: j}))), other, init)

    def keepcond(self, g, v):
        if g is v:
            return TRUE
        if g.op == 'ite':
            h, l = self.keepcond(g.a[1], v), self.keepcond(g.a[2], v)
            if h is None or l is None:
                return None
            return ite(mk('ite', g.a[0], TRUE, FALSE), h, l)
        if v in X.fv(g):
            return None
        return FALSE

    def listsuffix(self, g, v):
        """g = v ++ suffix (under decisions free of v)"""
        if g.op == 'list' and g.a and g.a[0][0] == 'l' and g.a[0][1].op == 'lsym' and g.a[0][1].a[0] is v:
            suf = mk('list', *g.a[1:])
            return suf
        if g.op == 'ite':
            h, l = self.listsuffix(g.a[1], v), self.listsuffix(g.a[2], v)
            if h is None or l is None:
                return None
            return ite(mk('ite', g.a[0], TRUE, FALSE), h, l)
        return None

    def solvelist(self, v, g, init, ix, n):
        j = X.var('ixs_' + ix.a[0], 'i')
        suf = self.listsuffix(g, v)
        if suf is not None:
            if v not in X.fv(suf):
                return X.concat(init, X.flatmap(ix, j, X.subst(suf, {ix: j})))
        # in-place update at index ix + o
        u = self.updform(g, v)
        if u is not None:
            idx, val, cond = u
            o = X.sub(idx, ix)
            if ix not in X.fv(o) and v not in X.fv(idx):
                # val may read v only at idx
                if self.readsonly(val, v, idx) and self.readsonly(cond, v, idx):
                    et = self.lsymof(g, v)
                    src = lambda t: X.subst(t, {v: init}) if v in X.fv(t) else t
                    vv = ite(src(cond), src(val), X.at(init, idx))
                    body = X.single(X.subst(vv, {ix: j}))
                    mapped = X.flatmap(ix, j, body)
                    L = X.length(init)
                    return X.concat(X.concat(X.slice_(init, X.ZERO, o), mapped), self.slicetail(init, X.add(o, ix), L, ix, n, o))
        kindtag = 'l'
        return self.lfold(ix, j, v, init, g)

    def slicetail(self, init, a, L, ix, n, o):
        return X.slice_(init, a, L)

    def lsymof(self, g, v):
        return None

    def lfold(self, ix, j, v, init, g):
        et = self.etype_(init)
        if et == '?':
            et = self.vet.get(v, '?')
        f = X.fold_('l', ix, j, v, init, X.subst(g, {ix: j}))
        return wrapfold(f, et)

    def updform(self, g, v):
        """g = upd(v, idx, val) possibly guarded; returns (idx, val, cond)"""
        if g.op == 'list' and len(g.a) == 1 and g.a[0][0] == 'l' and g.a[0][1].op == 'upd':
            u = g.a[0][1]
            if self.selfvalue(v, u.a[0]):
                return u.a[1], u.a[2], TRUE
            return None
        if g.op == 'ite':
            c = mk('ite', g.a[0], TRUE, FALSE)
            h = (None, None, FALSE) if self.selfvalue(v, g.a[1]) else self.updform(g.a[1], v)
            l = (None, None, FALSE) if self.selfvalue(v, g.a[2]) else self.updform(g.a[2], v)
            if h is None or l is None:
                return None
            if h[0] is not None and l[0] is not None and h[0] is not l[0]:
                return None
            idx = h[0] if h[0] is not None else l[0]
            if idx is None:
                return None
            return idx, ite(c, h[1] or NONE, l[1] or NONE), ite(c, h[2], l[2])
        return None

    def readsonly(self, t, v, idx):
        """every use of sequence v in t is the element at idx (or its length, which is pinned)"""
        seen = {}

        def go(x):
            if v not in X.fv(x):
                return True
            r = seen.get(x)
            if r is not None:
                return r
            if x.op == 'pel':
                L = x.a[0]
                if self.selfvalue(v, L):
                    r = x.a[1] is idx
                    seen[x] = r
                    return r
            if x is v:
                return False
            r = all(go(c) for c in X.children(x))
            seen[x] = r
            return r
        return go(t)

    def solvecoupled(self, pend, sub, phmap, ix, n, sol):
        """mutually recursive variables: one tuple fold per variable, over its slice"""
        out = {}
        allv = list(pend)
        gs = {v: sub(pend[v]) for v in allv}
        deps = {v: {w for w in allv if w in X.fv(gs[v])} for v in allv}
        for v in allv:
            sl = []
            todo = [v]
            while todo:
                w = todo.pop(0)
                if w in sl:
                    continue
                sl.append(w)
                todo += sorted(deps[w] - set(sl), key=lambda q: self.firstocc(gs[w], q))
            j = X.var('ixs_' + ix.a[0], 'i')
            # canonical names for the tuple components: by order of discovery
            lvl = 0
            for w in sl:
                for c in cvset(gs[w]):
                    lvl = max(lvl, c.a[0] // 100 + 1)
            ren = {w: mk('cv', 100 * lvl + i, w.a[1]) for i, w in enumerate(sl)}
            b = X.bvfor(*[gs[w] for w in sl])
            bodies = []
            m = {w: self.cvterm(w, ren[w], phmap[w]) for w in sl}
            for w in sl:
                t = X.subst(gs[w], {ix: b})
                bodies.append(X.subst(t, m))
            f = mk('foldn', ix, tuple(phmap[w] for w in sl), tuple(bodies), b, 100 * lvl)
            out[v] = self.typedfold(v, f, phmap[v])
        # several results share the loop
        return out

    def cvterm(self, w, c, init=None):
        mt = self.mtypes(init) if w.a[1] == 'm' and init is not None else ('?', '?')
        return c if w.a[1] in ('i', 'r', 'o') else {'b': lambda: X.asbool(c), 's': lambda: mk('str', ('a', c)),
                                                   'l': lambda: X.latom(mk('lsym', c, '?')), 'm': lambda: mk('msym', c, *mt)}[w.a[1]]()

    def typedfold(self, v, f, init):
        k = v.a[1]
        a = mk('app', 'foldn', k, (f,))
        if k == 'b':
            return X.asbool(a)
        if k == 's':
            return mk('str', ('a', a))
        if k == 'l':
            et = self.etype_(init)
            return X.latom(mk('lsym', a, et if et != '?' else self.vet.get(v, '?')))
        if k == 'm':
            return mk('msym', a, *self.mtypes(init))
        return a

    def firstocc(self, t, v):
        order = {}

        def go(x):
            if v not in X.fv(x):
                return None
            if x is v:
                return 0
            for i, c in enumerate(X.children(x)):
                r = go(c)
                if r is not None:
                    return r
            return None
        # position in a deterministic preorder walk
        cnt = [0]

        def walk(x):
            cnt[0] += 1
            if x is v:
                return True
            if v not in X.fv(x):
                return False
            for c in X.children(x):
                if walk(c):
                    return True
            return False
        walk(t)
        return cnt[0]

    def unknown_loop(self, W, keys, base_store, pc0, outer_throws, r, s):
        self.notes.append(('loop not summarised', self.frame.fn, s.get('l')))
        st = dict(base_store)
        self.st = State(st, pc0)
        for k in keys:
            self.store(k, self.topify(W[k]))
        for pc, et, b, store, l in r['throws'] + r['hthrows']:
            outer_throws.append((X.top('loop'), et, b, self.st.store, l))
        if r['rets']:
            raise Undecided('return inside an unsummarised loop')

    def topify(self, ph):
        if ph.op == 'rec':
            return mk('rec', ph.a[0], tuple((n, self.topify(x)) for n, x in ph.a[1]))
        if ph.op == 'own':
            return X.own(self.topify(ph.a[0]))
        return X.top('loop')

    # ---------------------------------------------------------------- expressions
    def tmp(self, v, t=None):
        return self.newloc('tmp', v, t)

    def ev(self, e, discard=False):
        """evaluate for effect"""
        if e['k'] == 'call':
            return self.call(e)
        return self.val(e) if e.get('t') != 'void' or True else None

    LVK = ('ref', 'mem', 'idx')

    def val(self, e):
        if self.st.pc is FALSE:
            return NONE
        self.tick()
        k = e['k']
        if self.inarith and k not in ('bin', 'cast'):
            self.inarith = False
            r = getattr(self, 'e_' + k)(e)
            self.inarith = True
            return r
        return getattr(self, 'e_' + k)(e)

    def lv(self, e):
        if self.st.pc is FALSE:
            return self.tmp(NONE)
        self.tick()
        m = getattr(self, 'l_' + e['k'], None)
        if m:
            old = self.inarith
            self.inarith = False
            r = m(e)
            self.inarith = old
            return r
        return self.tmp(self.val(e), e.get('t'))

    # literals
    def e_int(self, e):
        return num(int(e['v']))

    def e_flt(self, e):
        return X.flt(e['v'])

    def e_bool(self, e):
        return X.bool_(e['v'])

    def e_str(self, e):
        return X.strc(e.get('v', ''))

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.default_value(e['t'], zero=True)

    def e_sizeof(self, e):
        return num(int(e.get('v', 8)))

    def e_typeid(self, e):
        return X.sym('typeid', 'o')

    def e_unknown(self, e):
        if e.get('cls') == 'SourceLocExpr':
            return X.sym('srcloc', 'o')
        return X.top('expr ' + e.get('cls', '?'))

    def e_fold(self, e):
        return X.top('fold expr')

    def e_ref(self, e):
        dk = e.get('dk')
        if dk == 'enumc':
            return num(int(e['v']))
        if dk == 'func':
            return mk('fnref', e.get('fn'))
        if dk in ('global', 'static') and 'cv' in e:
            return num(int(e['cv'])) if e['cvt'] == 'int' else X.flt(e['cv'])
        return self.load(self.l_ref(e))

    def l_ref(self, e):
        d = e.get('d')
        if d in self.frame.env:
            return self.frame.env[d]
        dk = e.get('dk')
        if dk in ('enumc', 'func') or 'cv' in e:
            return self.tmp(self.e_ref(e))
        if dk in ('global', 'static'):
            g = self.globals_().get(e.get('qn'))
            if g is None:
                g = self.newloc(e.get('qn') or 'global', self.symval(e['t'], ('n', 'global:' + str(e.get('qn')))), e['t'], kind='global')
                self.globals_()[e.get('qn')] = g
            if g[0] not in self.st.store:
                self.st.store[g[0]] = self.symval(e['t'], ('n', 'global:' + str(e.get('qn'))))
            return g
        raise Undecided('unbound ' + str(e.get('n')))

    def globals_(self):
        if not hasattr(self, '_globals'):
            self._globals = {}
        return self._globals

    def l_mem(self, e):
        b = e['b']
        if e.get('arrow'):
            p = self.val(b)
            lv = self.deref(p)
        else:
            lv = self.lv(b)
        return (lv[0], tuple(lv[1]) + (('f', e['f']),))

    def e_mem(self, e):
        return self.load(self.l_mem(e))

    def e_this(self, e):
        return mk('ptr', self.frame.this[0], tuple(self.frame.this[1]))

    def notnull(self, p, line=0):
        """the pointer p where it is not null; where it is, the access fails"""
        if p.op != 'ite':
            return p

        def null(v):
            if v.op == 'ite':
                return ite(mk('ite', v.a[0], TRUE, FALSE), null(v.a[1]), null(v.a[2]))
            return TRUE if v.op == 'null' else FALSE

        def prune(v):
            if v.op == 'ite':
                h, l = prune(v.a[1]), prune(v.a[2])
                return l if h.op == 'null' else h if l.op == 'null' else ite(mk('ite', v.a[0], TRUE, FALSE), h, l)
            return v
        c = null(p)
        if c is FALSE:
            return p
        self.raise_('null pointer', [], line, c)
        return prune(p)

    def deref(self, p):
        p = self.notnull(p)
        if p.op == 'ptr':
            return (p.a[0], tuple(p.a[1]))
        if p.op == 'iter':
            r = p.a[0]
            if isinstance(r, tuple):
                return (r[0], tuple(r[1]) + (('i', p.a[1]),))
        l = self.tmp(p)
        return (l[0], (('o',),))

    def e_up(self, e):
        return self.val(e['e'])

    def l_up(self, e):
        return self.lv(e['e'])

    def e_cast(self, e):
        t = base(e['t'])
        ck = e.get('ck')
        old = self.inarith
        self.inarith = t in INTS and (old or not t.startswith('unsigned')) and t != 'bool'
        v = self.val(e['e'])
        self.inarith = old
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return X.asbool(v)
        if ck == 'FloatingToIntegral':
            return X.fn1('trunc', v)
        if ck in ('BaseToDerived', 'Dynamic', 'BitCast') and t.endswith('*'):
            return self.ogrcast(v, pointee(t), ck)
        if ck in ('ToVoid',):
            return VOID
        if t in INTS or t in REALS:
            if t == 'unsigned long' or t == 'unsigned int' or t.startswith('unsigned'):
                self.oblige('unsigned', e, X.lt(v, X.ZERO), v)
                if not self.inarith and ck == 'IntegralCast' and X.kind(v) in ('i', 'r'):
                    return self.wrap(X.tonum(v), t)
            return X.tonum(v)
        return v

    def ogrcast(self, v, kind, ck):
        if v.op == 'ite':
            return ite(mk('ite', v.a[0], TRUE, FALSE), self.ogrcast(v.a[1], kind, ck), self.ogrcast(v.a[2], kind, ck))
        if v.op == 'ptr' and (kind in OGRKIND or kind == 'OGRPoint'):
            lv = (v.a[0], v.a[1])
            x = self.load(lv)
            y = self.retype(x, kind)
            if y is not x:
                self.store(lv, y)
        elif v.op == 'own' and (kind in OGRKIND or kind == 'OGRPoint'):
            return X.own(self.retype(v.a[0], kind))
        return v

    def retype(self, x, kind):
        if x.op == 'ite':
            return ite(mk('ite', x.a[0], TRUE, FALSE), self.retype(x.a[1], kind), self.retype(x.a[2], kind))
        if x.op in ('rec', 'top', 'dc', 'null'):
            return x
        return self.symval(kind, mk('geo', x))

    def l_cast(self, e):
        if isref(e.get('t', '')) or base(e['t']) in self.p.recs or e.get('constcast'):
            return self.lv(e['e'])
        if e.get('ck') in ('BaseToDerived', 'NoOp'):
            return self.lv(e['e'])
        return self.tmp(self.e_cast(e), e['t'])

    def e_un(self, e):
        op = e['op']
        if op == '*':
            return self.load(self.l_un(e))
        if op == '&':
            lv = self.lv(e['e'])
            return mk('ptr', lv[0], tuple(lv[1]))
        if op in ('++', '--'):
            lv = self.lv(e['e'])
            old = self.load(lv)
            one = X.ONE
            if old.op == 'iter':
                new = mk('iter', old.a[0], X.add(old.a[1], one if op == '++' else num(-1)))
            else:
                new = X.add(old, one if op == '++' else num(-1))
                if op == '--' and base(e['t']).startswith('unsigned'):
                    self.oblige('unsigned', e, X.lt(new, X.ZERO), new)
            self.store(lv, new)
            return old if e.get('post') else new
        v = self.val(e['e'])
        if op == '-':
            return X.neg(v)
        if op == '+':
            return v
        if op == '!':
            return not_(v)
        if op == '~':
            return X.app('bitnot', 'i', v)
        return X.top('unary ' + op)

    def l_un(self, e):
        op = e['op']
        if op == '*':
            p = self.val(e['e'])
            return self.deref(p)
        if op in ('++', '--') and not e.get('post'):
            self.e_un(e)
            return self.lv(e['e'])
        return self.tmp(self.e_un(e), e.get('t'))

    def oblige(self, kind, e, bad, info=None):
        c = and_(self.st.pc, bad)
        if c is FALSE:
            self.oblig.append((kind, self.frame.fn, e.get('l'), FALSE, None))
        else:
            self.oblig.append((kind, self.frame.fn, e.get('l'), c, info))

    def binop(self, op, a, b, t, e=None):
        if op in ('+', '-'):
            if a.op == 'iter':
                if b.op == 'iter':
                    return X.sub(a.a[1], b.a[1])
                return mk('iter', a.a[0], X.add(a.a[1], b) if op == '+' else X.sub(a.a[1], b))
            if op == '+' and (a.op == 'str' or b.op == 'str'):
                return X.strcat(a, b)
            r = X.add(a, b) if op == '+' else X.sub(a, b)
            if op == '-' and e is not None and base(t).startswith('unsigned'):
                self.oblige('unsigned', e, X.lt(r, X.ZERO), r)
            if not self.inarith and base(t).startswith('unsigned'):
                return self.wrap(r, base(t))
            return r
        if op == '*':
            return X.mul(a, b)
        if op == '/':
            if base(t) in INTS:
                if e is not None:
                    self.oblige('div0', e, X.eq(b, X.ZERO), b)
                return X.idiv(a, b)
            return X.div(a, b)
        if op == '%':
            if e is not None:
                self.oblige('div0', e, X.eq(b, X.ZERO), b)
            return X.imod(a, b)
        if op == '==':
            return X.eq(a, b)
        if op == '!=':
            return not_(X.eq(a, b))
        if op in ('<', '>', '<=', '>='):
            if a.op == 'iter' and b.op == 'iter':
                a, b = a.a[1], b.a[1]
            if op == '<':
                return X.lt(a, b)
            if op == '>':
                return X.lt(b, a)
            if op == '<=':
                return not_(X.lt(b, a))
            return not_(X.lt(a, b))
        if op in ('&', '|', '^', '<<', '>>'):
            if X.kind(a) == 'b' and X.kind(b) == 'b':
                a, b = X.asbool(a), X.asbool(b)
                return and_(a, b) if op == '&' else or_(a, b) if op == '|' else ite(a, not_(b), b)
            return X.bitop(op, a, b, base(t).startswith('unsigned') or base(t) == 'bool')
        return X.top('binary ' + op)

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = X.asbool(self.val(e['a']))
            res = {}

            def g():
                res['b'] = X.asbool(self.val(e['b']))
            if op == '&&':
                self.branch(a, g, lambda: None)
                return and_(a, res.get('b', FALSE))
            self.branch(not_(a), g, lambda: None)
            return or_(a, res.get('b', FALSE))
        if op == ',':
            self.val(e['a'])
            return self.val(e['b'])
        # the result of a tree of unsigned additions wraps once, at its root
        old = self.inarith
        inner = op in ('+', '-')
        self.inarith = inner and not self.frac(e['t'])
        a = self.val(e['a'])
        b = self.val(e['b'])
        self.inarith = old
        return self.binop(op, a, b, e['t'], e)

    inarith = False

    def frac(self, t):
        return base(t) in REALS

    def wrap(self, r, t):
        neg = X.lt(r, X.ZERO)
        if neg is FALSE or and_(self.st.pc, neg) is FALSE:
            return r
        w = num(2 ** (32 if t == 'unsigned int' else 64))
        return ite(neg, X.add(r, w), r)

    def l_bin(self, e):
        if e['op'] == ',':
            self.val(e['a'])
            return self.lv(e['b'])
        return self.tmp(self.e_bin(e), e.get('t'))

    def e_asg(self, e):
        return self.load(self.l_asg(e))

    def l_asg(self, e):
        op = e['op']
        if op == '=':
            v = self.convert(self.val(e['b']), e['a'].get('t', ''))
            lv = self.lv(e['a'])
            if base(e['a'].get('t', '')) in self.p.recs or base(e['a'].get('t', '')).startswith('std::'):
                rl = self.lv(e['b']) if e['b']['k'] in self.LVK else None
                if rl:
                    v = self.share(self.load(rl), rl)
            self.store(lv, v)
            return lv
        b = self.val(e['b'])
        lv = self.lv(e['a'])
        a = self.load(lv)
        self.store(lv, self.convert(self.binop(op[:-1], a, b, e.get('ct', e['t']), e), e['a'].get('t', '')))
        return lv

    def convert(self, v, t):
        t = base(t)
        if t == 'bool':
            return X.asbool(v)
        if t in INTS and X.kind(v) == 'r' and v.op != 'top':
            return X.fn1('trunc', v)
        if (t in INTS or t in REALS):
            return X.tonum(v)
        return v

    def e_cond(self, e):
        c = X.asbool(self.val(e['c']))
        r1, r2 = self.branch(c, lambda: self.val(e['a']), lambda: self.val(e['b']))
        if r1 is None:
            return r2 if r2 is not None else NONE
        if r2 is None:
            return r1
        return ite(c, r1, r2)

    def l_cond(self, e):
        c = X.asbool(self.val(e['c']))
        r1, r2 = self.branch(c, lambda: self.lv(e['a']), lambda: self.lv(e['b']))
        if r1 is None:
            return r2 or self.tmp(NONE)
        if r2 is None:
            return r1
        if r1 == r2:
            return r1
        p = ite(c, mk('ptr', r1[0], tuple(r1[1])), mk('ptr', r2[0], tuple(r2[1])))
        l = self.tmp(p)
        return (l[0], (('o',),))

    def l_idx(self, e):
        a = self.val(e['a'])
        b = self.val(e['b'])
        if a.op == 'iter' and isinstance(a.a[0], tuple):
            r = a.a[0]
            return (r[0], tuple(r[1]) + (('i', X.add(a.a[1], b)),))
        if a.op == 'ptr':
            return (a.a[0], tuple(a.a[1]) + (('i', b),))
        return self.tmp(X.app('idx', 'o', a, b))

    def e_idx(self, e):
        if base(e['a'].get('t', '')).endswith(']'):
            lv = self.lv(e['a'])
            return self.load((lv[0], tuple(lv[1]) + (('i', self.val(e['b'])),)))
        return self.load(self.l_idx(e))

    def e_throw(self, e):
        et = base(e.get('et', '...'))
        if e.get('e'):
            q = self.throws
            self.val(e['e'])
        self.raise_(et, e.get('ebases', []), e.get('l'))
        return VOID

    def raise_(self, et, bases, line, cond=TRUE):
        pc = and_(self.st.pc, cond)
        if pc is FALSE:
            return
        self.throws.append((pc, et, [base(b) for b in bases], self.st.store, line))
        self.st = State(dict(self.st.store), and_(self.st.pc, not_(cond)))

    def e_new(self, e):
        t = base(e['nt'])
        l = self.newloc('new ' + t, NONE, t, kind='heap')
        if e.get('init'):
            self.initinto(l, e['init'], t)
        else:
            self.st.store[l[0]] = self.default_value(t)
        return mk('ptr', l[0], ())

    def e_delete(self, e):
        self.val(e['e'])
        return VOID

    def e_ilist(self, e):
        t = base(e['t'])
        n, a = tmpl(t)
        if len(e['a']) == 1 and t in self.p.recs and base(e['a'][0].get('t', '')) == t:
            return self.val(e['a'][0])
        if t in self.p.recs:
            fs = self.p.fields(t)
            vals = [self.val(x) for x in e['a']]
            return X.rec(t, [(f[0], vals[i] if i < len(vals) else self.default_value(f[1])) for i, f in enumerate(fs)])
        if len(e['a']) == 1 and (t in INTS or t in REALS or t == 'bool' or t.endswith('*') or t in self.p.enums):
            return self.convert(self.val(e['a'][0]), t)
        if not e['a'] and (t in INTS or t in REALS or t == 'bool' or t.endswith('*')):
            return self.default_value(t, zero=True)
        if len(e['a']) == 1 and t == base(e['a'][0].get('t', '')):
            return self.val(e['a'][0])
        return mk('list', *[('e', self.val(x)) for x in e['a']])

    def e_lambda(self, e):
        env = {}
        for c in e['caps']:
            if c.get('this'):
                continue
            d = c['d']
            if 'init' in c:
                env[d] = self.tmp(self.val(c['init']))
            elif d in self.frame.env:
                if c['ref']:
                    env[d] = self.frame.env[d]
                else:
                    lv = self.frame.env[d]
                    env[d] = self.newloc(c['n'], self.share(self.load(lv), lv))
        clo = Closure(e, env, self.frame.this, self.frame)
        return mk('lam', clo)

    # ---------------------------------------------------------------- construction
    def default_value(self, t, zero=False):
        t = base(t)
        if t in REALS or t in INTS or t in self.p.enums:
            return X.ZERO if zero else NONE
        if t == 'bool':
            return FALSE if zero else NONE
        if t.startswith('std::basic_string<'):
            return X.strc('')
        n, a = tmpl(t)
        if n in ('std::vector', 'std::initializer_list', 'std::deque', 'std::list', 'std::set'):
            return X.EMPTY
        if n in ('std::map', 'std::unordered_map'):
            return mk('mempty', base(a[0]), base(a[1]))
        if n == 'std::optional':
            return X.rec('std::optional', [('has', FALSE), ('val', NONE)])
        if n in ('std::shared_ptr', 'std::unique_ptr') or t.endswith('*'):
            return NULL
        if t == 'OGRPoint':
            return X.rec('OGRPoint', [('x', X.ZERO), ('y', X.ZERO), ('z', X.ZERO)])
        if t in OGRKIND:
            return X.rec(t, [('g', X.EMPTY)])
        if n == 'std::pair':
            return X.rec('std::pair', [('first', self.default_value(a[0], True)), ('second', self.default_value(a[1], True))])
        if t in self.p.recs:
            l = self.newloc('obj', NONE, t)
            self.construct(t, [], l)
            return self.st.store[l[0]]
        return NONE if not t.startswith('std::') else X.app('default:' + t, 'o')

    def blank(self, t):
        return X.rec(t, [(f, NONE) for f, ft, _ in self.p.fields(t)])

    def construct(self, cls, args, lv, key=None, pt=None):
        """run a constructor of repo class cls on lv"""
        if key is None:
            # default constructor
            key = '%s::%s()' % (cls, re.sub(r'<.*', '', cls).split('::')[-1])
        if cls in self.p.whole:
            if len(args) == 1 and base(key[key.index('(') + 1:-1]) == cls:
                self.store(lv, self.share(self.load(args[0]), args[0]))
            else:
                self.store(lv, self.symval(cls, self.mkcall('new ' + key, [self.snap(self.load(a)) for a in args])))
            return
        self.store(lv, self.blank(cls))
        f = self.p.fns.get(key)
        if f is None or (f.get('defaulted') and 'body' not in f and not f.get('inits')):
            # inherited constructor?
            if args:
                ps = key[key.index('('):]
                for b in (self.p.recs.get(cls) or {'bases': []})['bases']:
                    bk = self.basector(b, ps)
                    if bk:
                        self.ctorbody(self.p.fns[bk], args, lv)
                        return
                return self.store(lv, X.top('no constructor ' + key))
            self.defaultinit(cls, lv)
            return
        self.ctorbody(f, args, lv)

    def basector(self, b, ps):
        nm = re.sub(r'<.*', '', b).split('::')[-1]
        k = '%s::%s%s' % (b, nm, ps)
        if k in self.p.fns:
            return k
        for bb in (self.p.recs.get(b) or {'bases': []})['bases']:
            r = self.basector(bb, ps)
            if r:
                return r
        return None

    def defaultinit(self, cls, lv):
        rc = self.p.recs.get(cls)
        if not rc:
            return
        for b in rc['bases']:
            nm = re.sub(r'<.*', '', b).split('::')[-1]
            k = '%s::%s()' % (b, nm)
            f = self.p.fns.get(k)
            if f and not f.get('defaulted'):
                self.ctorbody(f, [], lv)
            else:
                self.defaultinit(b, lv)
        for fd in rc['fields']:
            p = (lv[0], tuple(lv[1]) + (('f', fd['n']),))
            if fd.get('init') is not None:
                self.initinto(p, fd['init'], fd['t'])
            else:
                self.store(p, self.default_value(fd['t']))

    def ctorbody(self, f, args, lv):
        self.invoke(f, lv, args, ctor=True)

    def initinto(self, lv, e, t):
        """initialise the place lv from expression e"""
        if e['k'] == 'ctor' and e.get('repo') and not self.opaque(e.get('fn', '')):
            t = base(e['t'])
            self.ctor(e, lv)
            return
        if e['k'] == 'ilist' and len(e['a']) == 1 and base(e['t']) in self.p.recs and base(e['a'][0].get('t', '')) == base(e['t']):
            return self.initinto(lv, e['a'][0], t)
        if e['k'] == 'ilist' and base(e['t']) in self.p.recs:
            self.store(lv, self.e_ilist(e))
            return
        self.store(lv, self.convert(self.val(e), t))

    def e_ctor(self, e):
        t = base(e['t'])
        if e.get('repo') or t in self.p.recs:
            l = self.newloc('obj', NONE, t)
            self.ctor(e, l)
            return self.st.store[l[0]] if self.st.pc is not FALSE else NONE
        return self.models.construct(self, e, t)

    def ctor(self, e, lv):
        t = base(e['t'])
        key = e.get('fn')
        if (e.get('copy') or e.get('move')) and e['a']:
            f = self.p.fns.get(key)
            if f is None or f.get('defaulted'):
                src = self.lv(e['a'][0])
                v = self.load(src)
                # slicing to the static type
                if v.op == 'rec' and v.a[0] != t and t in self.p.recs:
                    v = X.rec(t, [(n, X.fld(v, n)) for n, _, _ in self.p.fields(t)])
                self.store(lv, self.share(v, src))
                return
        f = self.p.fns.get(key)
        args = self.evargs(e['a'], e.get('pt', []))
        self.construct(t, args, lv, key)

    # ---------------------------------------------------------------- calls
    def evargs(self, nodes, pts):
        """argument places: references keep their place, values get a fresh one"""
        out = []
        for i, a in enumerate(nodes):
            t = pts[i] if i < len(pts) else a.get('t', '')
            if isref(t):
                out.append(self.lv(a))
            else:
                l = self.newloc('arg', NONE, t)
                self.initinto(l, a, t)
                out.append(l)
        return out

    def callkey(self, key, this, args):
        f = self.p.fns.get(key)
        if f is None:
            raise Undecided('no function ' + key)
        return self.invoke(f, this, args)

    def invoke(self, f, this, args, ctor=False):
        """inline function f; args are places"""
        key = f['fn']
        if self.st.pc is FALSE:
            return NONE
        if len(self.stack) > self.MAXDEPTH:
            raise Undecided('recursion in ' + key)
        if self.stack.count(key) > 1:
            # deeper calls of a function that only answers: an unknown answer
            if key.endswith(' const') and f.get('rt') != 'void' and not isref(f.get('rt', '')) and all(not isref(p['t']) or p['t'].startswith('const ') for p in f['params']):
                return X.top('recursion')
            raise Undecided('recursion in ' + key)
        self.inlined.add(key)
        env = {}
        for i, p in enumerate(f['params']):
            if i < len(args):
                env[p['d']] = args[i]
            elif 'def' in p:
                env[p['d']] = None
            else:
                env[p['d']] = self.tmp(X.top('missing argument'))
        outer = self.frame
        saved_ctx = getattr(self, 'loopctx', None)
        fr = Frame(key, this, env)
        fr.rt = f['rt']
        fr.refret = isref(f['rt'])
        self.frame = fr
        self.stack.append(key)
        pc0 = self.st.pc
        saved_throws = self.throws
        self.throws = []
        self.loopctx = None
        try:
            for p in f['params']:
                if env[p['d']] is None:
                    l = self.newloc(p['n'], NONE, p['t'])
                    self.initinto(l, p['def'], p['t'])
                    env[p['d']] = l
            if ctor:
                self.ctorinits(f, this)
            if f.get('body'):
                self.stmt(f['body'])
            elif f.get('defaulted') and not ctor:
                self.defaulted(f, this, args, fr)
            rets = fr.rets
            if self.st.pc is not FALSE:
                rets = rets + [(self.st.pc, VOID, self.st.store)]
            if not rets:
                self.st = State(self.st.store, FALSE)
                ret = NONE
            else:
                pc, v, store = rets[-1]
                for pc2, v2, s2 in reversed(rets[:-1]):
                    store = self.mergestores(pc2, s2, store)
                    v = self.retmerge(pc2, v2, v)
                    pc = or_(pc, pc2)
                self.st = State(dict(store), pc)
                ret = v
        finally:
            self.frame = outer
            self.stack.pop()
            self.loopctx = saved_ctx
            mine = self.throws
            self.throws = saved_throws
        self.throws += mine
        return ret

    def retmerge(self, c, a, b):
        if a is VOID:
            return b
        if b is VOID:
            return a
        return ite(c, a, b)

    def defaulted(self, f, this, args, fr):
        if f['fn'].find('operator=') >= 0 and args:
            src = args[0]
            t = base(f.get('cls', ''))
            v = self.load(src)
            if t in self.p.recs and v.op == 'rec' and v.a[0] != t:
                cur = self.load(this)
                if cur.op == 'rec' and cur.a[0] != t:
                    for n, _, _ in self.p.fields(t):
                        p = (('f', n),)
                        self.store((this[0], tuple(this[1]) + p), self.share(X.fld(v, n), (src[0], tuple(src[1]) + p)))
                    fr.rets.append((self.st.pc, mk('ptr', this[0], tuple(this[1])), self.st.store))
                    self.st = State(dict(self.st.store), FALSE)
                    return
            self.store(this, self.share(v, src))
            fr.rets.append((self.st.pc, mk('ptr', this[0], tuple(this[1])), self.st.store))
            self.st = State(dict(self.st.store), FALSE)

    def ctorinits(self, f, this):
        cls = f['cls']
        for b in f.get('inits', []):
            e = b['e']
            if 'base' in b:
                bt = base(b['base'])
                if e['k'] == 'ctor':
                    key = e.get('fn')
                    if e.get('inh'):
                        # inherited constructor: forward our own arguments
                        args = [self.frame.env[p['d']] for p in f['params']]
                        self.basecons(bt, key, args, this)
                    elif (e.get('copy') or e.get('move')) and e['a'] and (self.p.fns.get(key) is None or self.p.fns[key].get('defaulted')):
                        src = self.lv(e['a'][0])
                        for n, _, _ in self.p.fields(bt):
                            p = (('f', n),)
                            self.store((this[0], tuple(this[1]) + p), self.share(self.load((src[0], tuple(src[1]) + p)), (src[0], tuple(src[1]) + p)))
                    else:
                        args = self.evargs(e['a'], e.get('pt', []))
                        self.basecons(bt, key, args, this)
                else:
                    raise Undecided('base initialiser')
            elif 'deleg' in b:
                args = self.evargs(e['a'], e.get('pt', []))
                g = self.p.fns.get(e.get('fn'))
                if g:
                    self.ctorbody(g, args, this)
                else:
                    self.basecons(base(e['t']), e.get('fn'), args, this)
            elif 'f' in b:
                ft = dict((n, t) for n, t, _ in self.p.fields(cls)).get(b['f'], e.get('t', ''))
                lv = (this[0], tuple(this[1]) + (('f', b['f']),))
                self.initinto(lv, e, ft)
        done = {b.get('f') for b in f.get('inits', [])}

    def basecons(self, bt, key, args, this):
        g = self.p.fns.get(key)
        if g is not None and not g.get('defaulted'):
            self.ctorbody(g, args, this)
            return
        if g is None and args and '(' in key:
            bk = None
            ps = key[key.index('('):]
            for b in (self.p.recs.get(bt) or {'bases': []})['bases']:
                bk = self.basector(b, ps)
                if bk:
                    self.ctorbody(self.p.fns[bk], args, this)
                    return
        self.defaultinit(bt, this)

    def e_call(self, e):
        r = self.call(e)
        if isref(e.get('rt', '')) and r.op == 'ptr':
            return self.load((r.a[0], r.a[1]))
        return r

    def l_call(self, e):
        r = self.call(e)
        if isref(e.get('rt', '')) and r.op == 'ptr':
            return (r.a[0], tuple(r.a[1]))
        if isref(e.get('rt', '')) and r.op == 'ite':
            l = self.tmp(r)
            return (l[0], (('o',),))
        return self.tmp(r, e.get('t'))

    def e_mfn(self, e):
        return mk('fnref', e.get('fn'))

    def e_stmtexpr(self, e):
        raise Undecided('statement expression')

    def objlv(self, e):
        o = e.get('obj')
        if o is None:
            return None
        if e.get('arrow'):
            return self.deref(self.val(o))
        return self.lv(o)

    def call(self, e):
        """returns a value, or a pointer to the place for reference results"""
        if self.st.pc is FALSE:
            return NONE
        key = e.get('fn')
        if key is None:
            fv = self.val(e['fe']) if e.get('fe') else X.top('callee')
            if fv.op == 'lam':
                return self.calllam(fv, [self.lv(a) for a in e['a']])
            raise Undecided('indirect call')
        n = norm(e['n'])
        # lambda call operator
        if e.get('cls', '').startswith('lambda@') or n.endswith('::operator()') and e.get('obj') and not e.get('repo'):
            o = self.lv(e['obj'])
            v = self.load(o)
            if not n.endswith('::operator()'):
                return v
            if v.op == 'lam':
                f = v.a[0].body(key)
                return self.calllam(v, self.evargs(e['a'], [p['t'] for p in f['params']]))
        if e.get('repo'):
            key = self.dispatch(e, key)
            if key is not None and not self.opaque(key):
                f = self.p.fns.get(key)
                if f is not None and (f.get('body') or f.get('defaulted')):
                    this = None
                    if e.get('obj') is not None:
                        this = self.objlv(e)
                    args = self.evargs(e['a'], e.get('pt', []))
                    if this is not None and 'virt' in e:
                        key2 = self.dispatch_dyn(this, e, key)
                        if key2 is None:
                            return self.uninterpreted(e, key, this, args)
                        f = self.p.fns.get(key2) or f
                        if self.opaque(key2) or not (f.get('body') or f.get('defaulted')):
                            return self.uninterpreted(e, key2, this, args)
                    return self.invoke(f, this, args)
            this = self.objlv(e) if e.get('obj') is not None else None
            args = self.evargs(e['a'], e.get('pt', []))
            if this is not None and 'virt' in e:
                key2 = self.dispatch_dyn(this, e, e['fn'])
                f = self.p.fns.get(key2) if key2 else None
                if f and f.get('body') and not self.opaque(key2):
                    return self.invoke(f, this, args)
                if key2:
                    return self.uninterpreted(e, key2, this, args)
            if this is not None and '::operator=(' in e['fn'] and len(args) == 1 and e['fn'] not in self.p.fns and \
                    base(e['fn'].split('(')[1].rstrip(')')) == base(e['fn'].split('::operator=(')[0]):
                # implicit assignment operator: memberwise
                self.store(this, self.share(self.load(args[0]), args[0]))
                return mk('ptr', this[0], tuple(this[1]))
            return self.uninterpreted(e, e['fn'], this, args)
        return self.models.call(self, e, n)

    def dispatch(self, e, key):
        return key

    def dispatch_dyn(self, this, e, key):
        """method actually run on this, or None when it depends on the dynamic type"""
        ov = self.p.overriders(key)
        if not ov:
            return key
        loc, path = this
        if loc.exact and not path:
            v = self.st.store.get(loc)
            if v is not None and v.op == 'rec':
                return self.p.method_in(v.a[0], key)
        return None

    def uninterpreted(self, e, key, this, args):
        """unknown body: a pure function of the values it can see, which may change what it
        is given by non-const reference"""
        names = [key]
        vals = []
        fp = None
        if this is not None:
            v = self.snap(self.load(this))
            if v.op == 'rec' and key in self.p.fns and v.a[0] not in self.p.whole:
                from . import effects
                fp = effects.footprint(self.p, key)
                if fp is not None:
                    v = X.rec(v.a[0], [(n, x) for n, x in v.a[1] if n in fp[0]])
            vals.append(v)
        for a in args:
            vals.append(self.snap(self.load(a)))
        if fp is not None:
            old = self.load(this)
            r = self.opaquecall(key, vals, e.get('rt', 'void'), None, args, e.get('pt', []), True)
            for n, x in old.a[1]:
                if n in fp[1]:
                    ft = dict((g, gt) for g, gt, _ in self.p.fields(old.a[0])).get(n)
                    self.store((this[0], tuple(this[1]) + (('f', n),)), self.symval(ft, self.mkcall('this.%s:' % n + key, vals)) if ft else X.top('field'))
            return r
        return self.opaquecall(key, vals, e.get('rt', 'void'), this, args, e.get('pt', []), e.get('mconst') or e.get('mstatic'))

    def opaquecall(self, key, vals, rt, this, args, pts, mconst):
        self.trace.append((self.st.pc, key))
        if '::operator!=(' in key and rt == 'bool' and key.replace('::operator!=(', '::operator==(') in self.p.fns:
            # not defined in terms of each other, but the opposite of each other
            return not_(X.asbool(self.opaquecall(key.replace('::operator!=(', '::operator==('), vals, rt, this, args, pts, mconst)))
        if '::operator==(' in key and len(vals) == 2:
            vals = sorted(vals, key=lambda v: v.id)
        c = self.mkcall(key, vals)
        if this is not None and not mconst:
            cur = self.load(this)
            if cur.op == 'rec' and cur.a[1]:
                self.store(this, self.symval(cur.a[0], self.mkcall('this:' + key, vals)))
        for i, a in enumerate(args):
            t = pts[i] if i < len(pts) else ''
            if isref(t) and not isconst(t) and not t.endswith('&&'):
                self.store(a, self.symval(t, self.mkcall('arg%d:' % i + key, vals)))
        if rt == 'void':
            return VOID
        if isref(rt):
            l = self.newloc('ret', self.symval(rt, c), rt)
            return mk('ptr', l[0], ())
        return self.symcall(rt, c)

    def symcall(self, rt, c):
        if c.op == 'ite':
            return ite(mk('ite', c.a[0], TRUE, FALSE), self.symcall(rt, c.a[1]), self.symcall(rt, c.a[2]))
        if c.op == 'top':
            return c
        return self.symval(rt, c)

    def mkcall(self, key, vals):
        """call node, with decisions of scalar arguments lifted"""
        sk = set()
        for v in vals:
            self.deepskel(v, sk)
            if v.op == 'top':
                return v
        if sk and len(sk) <= 4:
            a = min(sk, key=lambda q: q.id)
            h = self.mkcall(key, [self.deeprestrict(v, a, True) for v in vals])
            l = self.mkcall(key, [self.deeprestrict(v, a, False) for v in vals])
            if h is l:
                return h
            return ite(mk('ite', a, TRUE, FALSE), h, l)
        return mk('call', key, *vals)

    def deepskel(self, v, out):
        if v.op == 'ite':
            out |= X.skel(v)
        elif v.op in ('rec', 'own'):
            for c in X.children(v):
                self.deepskel(c, out)
        elif v.op == 'list':
            for s in v.a:
                if s[0] == 'e':
                    self.deepskel(s[1], out)

    def calllam(self, fvv, args):
        clo = fvv.a[0]
        f = clo.body(None, len(args))
        env = dict(clo.env)
        ff = {'fn': clo.frame.fn + '::lambda@%d' % clo.node['l'], 'params': f['params'], 'rt': f['rt'], 'body': f['body']}
        # by-value parameters are copies
        a2 = []
        for p, a in zip(f['params'], args):
            if isref(p['t']):
                a2.append(a)
            else:
                a2.append(self.newloc(p['n'], self.convert(self.share(self.load(a), a), p['t']), p['t']))
        # inline with captured environment
        key = ff['fn']
        outer = self.frame
        # variables captured implicitly (by default capture) are in clo.env
        r = self.invoke_env(ff, clo.this, a2, env)
        return r

    def invoke_env(self, f, this, args, env0):
        saved = dict
        orig = Frame.__init__
        key = f['fn']
        if self.stack.count(key) > 1:
            raise Undecided('recursion in ' + key)
        env = dict(env0)
        for p, a in zip(f['params'], args):
            env[p['d']] = a
        outer = self.frame
        saved_ctx = getattr(self, 'loopctx', None)
        fr = Frame(key, this, env)
        fr.rt = f['rt']
        fr.refret = isref(f['rt'])
        self.frame = fr
        self.stack.append(key)
        saved_throws = self.throws
        self.throws = []
        self.loopctx = None
        try:
            self.stmt(f['body'])
            rets = fr.rets
            if self.st.pc is not FALSE:
                rets = rets + [(self.st.pc, VOID, self.st.store)]
            if not rets:
                self.st = State(self.st.store, FALSE)
                ret = NONE
            else:
                pc, v, store = rets[-1]
                for pc2, v2, s2 in reversed(rets[:-1]):
                    store = self.mergestores(pc2, s2, store)
                    v = self.retmerge(pc2, v2, v)
                    pc = or_(pc, pc2)
                self.st = State(dict(store), pc)
                ret = v
        finally:
            self.frame = outer
            self.stack.pop()
            self.loopctx = saved_ctx
            mine = self.throws
            self.throws = saved_throws
        self.throws += mine
        return ret


class Closure:
    def __init__(self, node, env, this, frame):
        self.node = node
        self.env = env
        self.this = this
        self.frame = frame

    def body(self, key, nargs=None):
        bs = self.node['bodies']
        if key is not None:
            for b in bs:
                if b['fn'] == key:
                    return b
        if len(bs) > 1 and nargs is not None:
            bs = [b for b in bs if len(b['params']) == nargs] or bs
        return bs[0]


class _PinDict(dict):
    pass


X._PINS = {}
_orig_atomlen = X.atomlen


def _atomlen(t):
    p = X._PINS.get(t)
    if p is not None:
        return p
    return _orig_atomlen(t)


X.atomlen = _atomlen

_orig_rebuild = X.rebuild


_cvset = {}


def cvset(t):
    """tuple-fold component variables below t"""
    r = _cvset.get(t)
    if r is None:
        if t.op == 'cv':
            r = frozenset((t,))
        else:
            s = set()
            for c in X.children(t):
                s |= cvset(c)
            r = frozenset(s)
        _cvset[t] = r
    return r


def wrapfold(f, et):
    if f.op == 'fold':
        return X.latom(mk('lapp', 'fold', et, (f,)))
    if f.op == 'ite':
        return ite(mk('ite', f.a[0], TRUE, FALSE), wrapfold(f.a[1], et), wrapfold(f.a[2], et))
    return f


def wrapmap(f, kt, vt):
    if f.op == 'fold':
        return mk('msym', f, kt, vt)
    if f.op == 'ite':
        return ite(mk('ite', f.a[0], TRUE, FALSE), wrapmap(f.a[1], kt, vt), wrapmap(f.a[2], kt, vt))
    if f.op == 'lf' and f.a[0] == 'm':
        return mk('msym', f, kt, vt)
    return f


def _rebuild(t, go):
    if t.op == 'lf':
        return INTERP[0].rebuild(t, go)
    if t.op == 'msym':
        x = go(t.a[0])
        if x.op in ('msym', 'mset', 'merase', 'mempty', 'top'):
            return x
        return wrapmap(x, t.a[1], t.a[2]) if x.op in ('ite', 'fold') else mk('msym', x, t.a[1], t.a[2])
    if t.op == 'mset':
        return INTERP[0].mset(go(t.a[0]), go(t.a[1]), go(t.a[2]))
    if t.op == 'merase':
        return mk('merase', go(t.a[0]), go(t.a[1]))
    if t.op == 'app' and t.a[0] == 'mhas':
        return INTERP[0].mhas(go(t.a[2][0]), go(t.a[2][1]))
    if t.op == 'call':
        return INTERP[0].mkcall(t.a[0], [go(x) for x in t.a[1:]])
    if t.op == 'foldn':
        return mk('foldn', go(t.a[0]), tuple(go(x) for x in t.a[1]), tuple(go(x) for x in t.a[2]), t.a[3], t.a[4])
    if t.op == 'lapp' and t.a[0] == 'fold':
        return wrapfold(go(t.a[2][0]), t.a[1])
    return _orig_rebuild(t, go)


X.rebuild = _rebuild
_orig_kind = X.kind


def _kind(t):
    if t.op == 'lf':
        return t.a[0]
    if t.op == 'cv':
        return t.a[1]
    return _orig_kind(t)


X.kind = _kind
INTERP = [None]
