"""Models of everything the library calls outside its own sources: the C++ standard
library, OGR geometries, GEOS, and a generic treatment (a function of the values passed)
for the rest."""
from . import terms as X
from .terms import T, TRUE, FALSE, NULL, VOID, NONE, mk, num, ite, and_, or_, not_

SYMMETRIC = {'Intersects', 'Distance', 'Disjoint', 'Touches', 'Equals', 'Crosses'}
MAPT = ('std::map', 'std::unordered_map')
VEC = ('std::vector', 'std::initializer_list', 'std::deque', 'std::list')
GTYPE = {'OGRPoint': 1, 'OGRLineString': 2, 'OGRLinearRing': 2, 'OGRPolygon': 3,
         'OGRMultiPoint': 4, 'OGRMultiLineString': 5, 'OGRMultiPolygon': 6}


def I_():
    from . import interp
    return interp


def ptrto(lv):
    return mk('ptr', lv[0], tuple(lv[1]))


def ext(lv, *steps):
    return (lv[0], tuple(lv[1]) + tuple(steps))


def args_(I, e):
    return I.evargs(e['a'], e.get('pt', []))


def recv(I, e):
    return I.objlv(e)


def cases(v, f):
    """apply f to the leaves of a decision"""
    if v.op == 'ite':
        return ite(mk('ite', v.a[0], TRUE, FALSE), cases(v.a[1], f), cases(v.a[2], f))
    return f(v)


def ptrval(I, lv):
    """the pointer held by the smart pointer at lv"""
    def f(v):
        if v.op == 'own':
            return mk('ptr', lv[0], tuple(lv[1]) + (('o',),))
        return v
    return cases(I.load(lv), f)


def derefs(I, v):
    """value a pointer value points at"""
    def f(x):
        if x.op == 'ptr':
            return I.snap(I.load((x.a[0], x.a[1])))
        if x.op == 'own':
            return I.snap(x.a[0])
        if x.op == 'null':
            return NULL
        if x.op == 'iter' and isinstance(x.a[0], tuple):
            return I.snap(I.load(ext(x.a[0], ('i', x.a[1]))))
        return x
    return cases(v, f)


def elemtype(I, t):
    n, a = I_().tmpl(t)
    return I_().base(a[0]) if a else '?'


# ------------------------------------------------------------------ iteration helper
def loop(I, lo, hi, body, e):
    """body(ix) for ix in [lo,hi)"""
    idx = I.newloc('ax', lo, 'long')
    saved = getattr(I, 'loopctx', None)

    def one():
        ctx = {'brk': [], 'cont': []}
        sv = I.loopctx
        I.loopctx = ctx
        body(I.load(idx))
        I.loopctx = sv
    I.loopctx = {'brk': [], 'cont': []}
    try:
        I.loop(lambda: X.lt(I.load(idx), hi), one,
               lambda: I.store(idx, X.add(I.load(idx), X.ONE)), e)
    finally:
        I.loopctx = saved


def iplace(it, i):
    return ext(it.a[0], ('i', i))


def isiter(v):
    return v.op == 'iter' and isinstance(v.a[0], tuple)


def pure(I, e, this, args, key=None):
    """function of the values it sees; changes what it is given by reference"""
    from .interp import isref, isconst, isptr
    key = key or e['fn']
    vals = []
    if this is not None:
        vals.append(I.snap(I.load(this)))
    for a in args:
        v = I.load(a)
        vals.append(derefs(I, v) if v.op in ('ptr', 'own', 'iter') else I.snap(v))
    pts = e.get('pt', [])
    r = I.opaquecall(key, vals, e.get('rt', 'void'), this, args, pts, e.get('mconst') or e.get('mstatic') or this is None)
    cls = e.get('n', '').rsplit('::', 1)[0]
    if this is not None and not (e.get('mconst') or e.get('mstatic')) and (
            cls == 'OGRSpatialReference' or e.get('n') in ('tinyxml2::XMLDocument::LoadFile', 'tinyxml2::XMLDocument::Parse')):
        # a library object without visible fields is changed by its setters
        I.store(this, I.symval(cls, I.mkcall('this:' + key, vals)))
    for i, a in enumerate(args):
        t = pts[i] if i < len(pts) else ''
        if isptr(t) and not isref(t) and not isconst(t) and not t.startswith('const '):
            v = I.load(a)
            if v.op == 'ptr':
                I.store((v.a[0], v.a[1]), havoc(I, I.load((v.a[0], v.a[1])), t, I.mkcall('out%d:' % i + key, vals)))
    return r


def havoc(I, cur, t, c):
    from .interp import pointee
    if cur.op == 'rec':
        if cur.a[0] in I.p.recs or cur.a[0].startswith('OGR'):
            return I.symval(cur.a[0], c)
    return I.symval(pointee(t), c)


# ------------------------------------------------------------------ constructors
def construct(I, e, t):
    from .interp import tmpl, base, isref
    n, a = tmpl(t)
    nodes = e['a']
    pts = e.get('pt', [])
    if n == 'std::allocator':
        return VOID
    if (e.get('copy') or e.get('move')) and nodes:
        src = I.lv(nodes[0])
        return I.share(I.load(src), src)
    args = I.evargs(nodes, pts)
    vals = [I.load(x) for x in args]
    if n == 'std::basic_regex' and len(vals) == 2 and vals[0].op == 'str' and vals[1] is num(16):
        return vals[0]
    if n in VEC:
        vals = [v for v in vals if v is not VOID]
        if not vals:
            return X.EMPTY
        p0 = base(pts[0]) if pts else ''
        if p0.startswith('std::initializer_list') or tmpl(p0)[0] in VEC:
            return vals[0]
        if isiter(vals[0]) and len(vals) >= 2:
            return X.slice_(I.load(vals[0].a[0]), vals[0].a[1], vals[1].a[1])
        if vals[0].op in ('iter',) or any(v.op in ('mit', 'ptr') for v in vals):
            return X.top('vector from iterators')
        et = base(a[0])
        v = vals[1] if len(vals) > 1 else I.default_value(et, zero=True)
        return X.fill(vals[0], v)
    if t.startswith('std::basic_string<') or n == 'std::basic_string':
        vals = [v for v in vals if v is not VOID]
        if not vals:
            return X.strc('')
        if len(vals) == 1:
            return derefstr(I, vals[0])
        return I.symval(t, I.mkcall('string', [I.snap(derefstr(I, v)) for v in vals]))
    if t == 'OGRPoint':
        z = [vals[i] if i < len(vals) else X.ZERO for i in range(3)]
        return X.rec('OGRPoint', list(zip('xyz', z)))
    if t == 'OGREnvelope':
        return X.rec('OGREnvelope', [(f, NONE) for f in ('MinX', 'MaxX', 'MinY', 'MaxY')])
    if n == 'std::basic_ifstream' and vals:
        return X.rec(n, [('file', derefstr(I, vals[0])), ('pos', X.ZERO)])
    if n in ('std::basic_stringstream', 'std::basic_ostringstream') and not vals:
        return X.rec(n, [('out', X.strc('')), ('prec', num(6)), ('loc', X.sym('locale', 'o'))])
    if n == 'std::locale':
        vs = [derefs(I, v) for v in vals]
        # a facet of the program stands for what it holds
        return X.app('locale', 'o', *[w for v in vs for w in ([x for _, x in v.a[1]] if v.op == 'rec' and len(v.a) > 1 and isinstance(v.a[1], tuple) else [v])])
    if n in ('std::shared_ptr', 'std::unique_ptr'):
        if not vals:
            return NULL
        if tmpl(base(pts[0]))[0] in ('std::shared_ptr', 'std::unique_ptr') if pts else False:
            return I.share(vals[0], args[0])
        return vals[0]
    if n == 'std::optional':
        if not vals or base(pts[0]).startswith('std::nullopt'):
            return I.default_value(t)
        if tmpl(base(pts[0]))[0] == 'std::optional':
            return I.share(vals[0], args[0])
        return X.rec('std::optional', [('has', TRUE), ('val', I.share(vals[0], args[0]))])
    if n == 'std::pair':
        if len(vals) == 2:
            return X.rec('std::pair', [('first', I.convert(I.share(vals[0], args[0]), a[0])), ('second', I.convert(I.share(vals[1], args[1]), a[1]))])
        if len(vals) == 1:
            return I.share(vals[0], args[0])
        return I.default_value(t)
    if n in MAPT and not vals:
        return mk('mempty', base(a[0]), base(a[1]))
    if n == '__gnu_cxx::__normal_iterator':
        return vals[0] if vals else NONE
    if n in DISTR:
        vals = [v for v in vals if v is not VOID]
        d = (X.ZERO, X.ONE) if n == 'std::uniform_real_distribution' else (X.ONE,)
        return X.rec(n, [('ab'[i], vals[i] if i < len(vals) else x) for i, x in enumerate(d)])
    if n == 'std::function':
        return vals[0] if vals else NULL
    if t.startswith('std::') and ('invalid_argument' in t or 'out_of_range' in t or 'length_error' in t or 'runtime_error' in t):
        return X.app('exc', 'o')
    if n == 'std::array':
        return X.EMPTY
    return I.symval(t, I.mkcall('ctor:' + t, [derefs(I, I.snap(v)) for v in vals]))


# a draw is a function of the state of the engine, which it moves on
DISTR = ('std::uniform_real_distribution', 'std::exponential_distribution')


def draw(I, e, n):
    o = I.load(recv(I, e))
    a = args_(I, e)
    g = I.load(a[0])
    if len(a) != 1 or o.op != 'rec' or g.op == 'rec':
        return X.top('distribution')
    I.store(a[0], X.app('rng.next', 'o', g))
    u = X.app('rng.exp' if 'exp' in n else 'rng.unit', 'r', g)
    v = dict(o.a[1])
    if 'exp' in n:
        return X.div(u, v['a'])
    return X.add(v['a'], X.mul(X.sub(v['b'], v['a']), u))


def derefstr(I, v):
    v = I.notnull(v)
    if v.op == 'ite':
        return cases(v, lambda q: derefstr(I, q))
    if v.op == 'ptr':
        return I.load((v.a[0], v.a[1]))
    if v.op == 'own':
        return v.a[0]
    return v


# ------------------------------------------------------------------ calls
def json(I, e, n):
    """members of a JSON document: an opaque value with parts"""
    m = n[len('nlohmann::basic_json::'):]
    if e.get('obj') is None:
        return None
    if m in ('operator[]', 'at') and len(e['a']) == 1:
        o = recv(I, e)
        k = [I.load(x) for x in args_(I, e)][0]
        j, k = jval(I, o), derefs(I, k)
        if k.op == 'str' and (m == 'at' or e.get('mconst')):
            I.raise_('std::out_of_range' if m == 'at' else 'unchecked access', ['std::exception'] if m == 'at' else [], e.get('l'),
                     X.not_(X.asbool(X.app('json.has', 'b', j, k))))
        l = I.newloc('json', X.app('json.at', 'o', j, k))
        return mk('ptr', l[0], ())
    if m == 'size':
        return X.app('json.size', 'i', jval(I, recv(I, e)))
    if m.startswith('operator ') or m == 'get':
        o = recv(I, e)
        args_(I, e)
        return I.symcall(e['rt'], I.mkcall('json.to', [jval(I, o)]))
    return None


def jval(I, o):
    v = I.load(o)
    while v.op == 'ptr':
        v = I.load((v.a[0], v.a[1]))
    return I.snap(v)


def call(I, e, n):
    cls = e.get('cls', '')
    short = n.rsplit('::', 1)[-1]
    if n.startswith('std::_Bit_reference::'):
        short = n[len('std::_Bit_reference::'):]
        o = recv(I, e)
        p = I.load(o)
        if short.startswith('operator bool'):
            return I.load((p.a[0], p.a[1])) if p.op == 'ptr' else p
        v = [I.load(x) for x in args_(I, e)][0]
        if v.op == 'ptr':
            v = I.load((v.a[0], v.a[1]))
        if p.op == 'ptr':
            I.store((p.a[0], p.a[1]), X.asbool(v))
        return p
    if n.startswith('OGRGeometryFactory::') or n.startswith('GEOS') or n.startswith('VSI') or n.startswith('CPL'):
        return ogrstatic(I, e, n)
    if n.startswith('OGR') and e.get('obj') is not None and not n.startswith('OGRSpatialReference') and not n.startswith('OGRCoordinateTransformation'):
        return ogrmethod(I, e, short)
    if n in ('OGRGeometry::createGEOSContext', 'OGRGeometry::freeGEOSContext'):
        return X.sym('geosctx', 'o') if 'create' in n else VOID
    if n.startswith(STREAMS) and (e.get('op') in ('<<', '>>') or e.get('obj') is not None):
        r = stream(I, e, n, short)
        if r is not None:
            return r
    if n == 'OGR_GT_Flatten':
        return I.load(args_(I, e)[0])
    if n.startswith('nlohmann::basic_json::'):
        r = json(I, e, n)
        if r is not None:
            return r
    if n.rsplit('::', 1)[0] in DISTR and short.startswith('operator()'):
        return draw(I, e, n)
    if n.startswith('std::vector::'):
        return vector(I, e, short)
    if n.startswith('std::initializer_list::'):
        o = recv(I, e)
        return {'begin': lambda: mk('iter', o, X.ZERO), 'end': lambda: mk('iter', o, X.length(I.load(o))),
                'size': lambda: X.length(I.load(o))}[short]()
    if n.startswith('std::unordered_map::') or n.startswith('std::map::'):
        return mapcall(I, e, short)
    if n.startswith('std::basic_string::'):
        return string(I, e, short)
    if n in ('std::__shared_ptr_access::operator->', 'std::unique_ptr::operator->', 'std::__shared_ptr::get', 'std::unique_ptr::get'):
        o = recv(I, e)
        return ptrval(I, o)
    if n.startswith('std::unique_ptr::') or n.startswith('std::shared_ptr::') or n.startswith('std::__shared_ptr'):
        return smart(I, e, short)
    if n.startswith('std::optional::'):
        return optional(I, e, short)
    if n.startswith('__gnu_cxx::') or n.startswith('std::__detail::_Node') or n.startswith('std::_Rb_tree_iterator') or n.startswith('std::_Node'):
        return iterop(I, e, short)
    if n.startswith('std::') or n in MATH:
        r = stdfun(I, e, n, short)
        if r is not None:
            return r
    if n.startswith('boost::math::constants::'):
        return {'pi': X.PI, 'two_pi': X.mul(num(2), X.PI), 'half_pi': X.mul(num(X.Fraction(1, 2)), X.PI),
                'degree': X.mul(num(X.Fraction(1, 180)), X.PI), 'third_pi': X.mul(num(X.Fraction(1, 3)), X.PI)}.get(short) or X.sym(short, 'r')
    if n in ('begin', 'end', 'std::begin', 'std::end'):
        pass
    if n == '__assert_fail':
        I.raise_('assert', [], e.get('l'))
        return VOID
    if n in ('OGRCreateCoordinateTransformation',):
        a = args_(I, e)
        return X.own(I.symval('OGRCoordinateTransformation', I.mkcall(n, [derefs(I, I.load(x)) for x in a])))
    if 'DestroyCT' in n or 'DestroySpatialReference' in n:
        args_(I, e)
        return VOID
    if n in ('std::match_results::str', 'std::match_results::operator[]'):
        m = I.load(recv(I, e))
        a = [I.load(x) for x in args_(I, e)] or [X.ZERO]
        r = cases(m, lambda q: mk('str', ('a', X.app('rxgroup', 's', q.a[2][0], q.a[2][1], q.a[2][2], a[0])))
                  if q.op == 'app' and q.a[0] == 'rxmatch' else X.top(n))
        return r if short == 'str' else ptrto(I.tmp(r))
    if n.startswith('std::sub_match::'):
        m = I.load(recv(I, e))
        if m.op == 'str' and (short == 'str' or short.startswith('operator basic_string') or short.startswith('operator std::')):
            return m
        return X.top(n)
    if n in ('boost::algorithm::iequals', 'boost::iequals'):
        v = sorted([derefstr(I, I.load(x)) for x in args_(I, e)[:2]], key=lambda t: t.id)
        return X.asbool(X.app('iequals', 'b', *v))
    this = recv(I, e) if e.get('obj') is not None else None
    a = args_(I, e)
    r = pure(I, e, this, a)
    if n.startswith('tinyxml2::') and e.get('rt', '').endswith('*'):
        # what a document does not have is a null pointer
        r = cases(r, lambda q: X.ite(X.asbool(X.app('nonnull', 'b', q.a[0])), q, X.NULL) if q.op == 'own' else q)
    return r


MATH = {'sin', 'cos', 'tan', 'sqrt', 'fabs', 'fmod', 'atan2', 'floor', 'ceil', 'round', 'exp', 'log', 'pow', 'acos', 'asin', 'atan', 'hypot', 'abs', 'max', 'min', 'time', 'isnan', 'isinf', 'isfinite', 'signbit', 'copysign', 'fma', 'fmax', 'fmin'}


def math(I, short, vs, e):
    from .interp import INTS, base
    if short in ('fabs', 'abs'):
        return X.fn1('fabs', vs[0])
    if short in ('sin', 'cos', 'tan', 'asin', 'atan', 'acos', 'sqrt', 'floor', 'ceil', 'round', 'exp', 'log'):
        return X.fn1(short, vs[0])
    if short == 'pow':
        ex = vs[1]
        if ex.op == 'num' and ex.a[0].denominator == 1 and 0 <= ex.a[0] <= 6:
            r = X.ONE
            for _ in range(int(ex.a[0])):
                r = X.mul(r, vs[0])
            return r
        if ex.op == 'num' and ex.a[0] == X.Fraction(1, 2):
            return X.fn1('sqrt', vs[0])
        return X.app('pow', 'r', vs[0], vs[1])
    if short == 'hypot' and len(vs) == 2:
        return X.fn1('sqrt', X.add(X.mul(vs[0], vs[0]), X.mul(vs[1], vs[1])))
    if short in ('isnan', 'isinf', 'isfinite', 'isnormal'):
        # the numbers the summaries range over are finite
        return X.TRUE if short == 'isfinite' else X.FALSE if short == 'isnan' else X.app(short, 'b', *vs)
    if short in ('signbit',):
        return X.lt(vs[0], X.ZERO)
    if short == 'copysign':
        m = X.fn1('fabs', vs[0])
        return X.ite(X.lt(vs[1], X.ZERO), X.neg(m), m)
    if short == 'fma':
        return X.add(X.mul(vs[0], vs[1]), vs[2])
    if short in ('fmax', 'fmin'):
        return (X.maxt if short == 'fmax' else X.mint)(vs[0], vs[1])
    if short in ('fmod', 'atan2', 'hypot'):
        return X.app(short, 'r', *vs)
    return None


def stdfun(I, e, n, short):
    from .interp import base, isref
    if n in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref'):
        lv = I.lv(e['a'][0])
        return ptrto(lv)
    if n in ('std::max', 'std::min', 'max', 'min'):
        a = args_(I, e)
        vs = [I.load(x) for x in a]
        if len(vs) == 1 and vs[0].op == 'list':
            r = X.at(vs[0], X.ZERO)
            for k in range(1, len(vs[0].a)):
                r = (X.maxt if 'max' in short else X.mint)(r, X.at(vs[0], num(k)))
            return r
        if len(vs) == 3:
            c = I.calllam(vs[2], [a[0], a[1]] if short == 'max' else [a[1], a[0]])
            r = ite(c, vs[1], vs[0])
        else:
            r = X.maxt(vs[0], vs[1]) if short == 'max' else X.mint(vs[0], vs[1])
        if isref(e.get('rt', '')):
            return ptrto(I.tmp(r))
        return r
    if n == 'std::numeric_limits::max' or n == 'std::numeric_limits::min' or n == 'std::numeric_limits::lowest' or n == 'std::numeric_limits::infinity' or n == 'std::numeric_limits::epsilon':
        return X.sym('%s:%s' % (short.upper(), e['rt']), 'i' if base(e['rt']) in I_().INTS else 'r')
    if n in ('std::make_pair',):
        a = args_(I, e)
        return X.rec('std::pair', [('first', I.share(I.load(a[0]), a[0])), ('second', I.share(I.load(a[1]), a[1]))])
    if n in ('std::back_inserter',):
        a = args_(I, e)
        return mk('bins', a[0][0], tuple(a[0][1]))
    if n in ('std::begin', 'std::cbegin'):
        a = args_(I, e)
        return mk('iter', a[0], X.ZERO)
    if n in ('std::end', 'std::cend'):
        a = args_(I, e)
        return mk('iter', a[0], X.length(I.load(a[0])))
    if n == 'std::clamp':
        a = args_(I, e)
        vs = [I.load(x) for x in a]
        if len(vs) == 3 and e.get('rt', '').replace('const ', '').rstrip(' &') in ('double', 'float', 'int', 'unsigned int', 'long', 'unsigned long'):
            r = ite(X.lt(vs[0], vs[1]), vs[1], ite(X.lt(vs[2], vs[0]), vs[2], vs[0]))
            return ptrto(I.tmp(r)) if isref(e.get('rt', '')) else r
    if n == 'std::exchange':
        a = args_(I, e)
        old, new = I.load(a[0]), I.load(a[1])
        if all(x.op not in ('rec', 'list', 'own') for x in (old, new)):
            I.store(a[0], I.convert(new, e['rt']))
            return old
    if n in ('std::swap',):
        a = args_(I, e)
        v, w = I.load(a[0]), I.load(a[1])
        I.store(a[0], w)
        I.store(a[1], v)
        return VOID
    if n in ('std::make_shared', 'std::make_unique'):
        return makeptr(I, e, n)
    if n == 'std::to_string':
        a = args_(I, e)
        fl = e.get('pt', [''])[0] in ('double', 'float', 'long double')
        return mk('str', ('a', X.app('to_fstring' if fl else 'to_string', 's', I.load(a[0]))))
    if n in ('std::stoi', 'std::stol', 'std::stoul', 'std::stoll', 'std::stoull', 'std::stod', 'std::stof'):
        a = args_(I, e)
        v = [I.load(x) for x in a[:1]]
        others = [I.load(x) for x in a[1:]]
        if all(x.op == 'null' or x is num(10) for x in others):
            return X.app(short if short in ('stod', 'stof') else 'stoi', 'r' if short in ('stod', 'stof') else 'i', *v)
        return X.top(n)
    if n in ('std::regex_search', 'std::regex_match'):
        a = args_(I, e)
        v = [derefstr(I, I.load(x)) for x in a]
        pts = e.get('pt', [])
        if len(v) >= 2 and 'basic_string<' in pts[0] and 'basic_regex' in pts[-2]:
            if v[-1] is not X.ZERO:
                return X.top(n)
            if len(v) == 4:
                I.store(a[1], X.app('rxmatch', 'o', v[0], v[2], X.strc(short)))
            return X.asbool(X.app('rxfound', 'b', v[0], v[-2], X.strc(short)))
        return X.top(n)
    if n == 'std::operator+':
        a = [derefstr(I, I.load(x)) for x in args_(I, e)]
        return X.strcat(*a)
    if n in ('std::__detail::operator==', 'std::__detail::operator!='):
        n = 'std::' + short
    if n in ('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>='):
        a = [I.load(x) for x in args_(I, e)]
        for i in (0, 1):
            if len(a) == 2 and a[i].op == 'mitend' and a[1 - i].op == 'iter' and a[1 - i].a[0][0].name == 'entries':
                a[i] = mk('iter', a[1 - i].a[0], X.length(I.load(a[1 - i].a[0])))
        a = [x if x.op in ('mit', 'mitend', 'iter') else derefstr(I, x) if x.op in ('ptr', 'own') and not isptrlike(e) else x for x in a]
        if n.endswith('=='):
            return X.eq(a[0], a[1])
        if n.endswith('!='):
            return not_(X.eq(a[0], a[1]))
        if a[0].op == 'iter':
            return I.binop(short[8:], a[0], a[1], 'bool')
        if n.endswith('<'):
            return X.asbool(X.app('less', 'b', a[0], a[1]))
        if n.endswith('>'):
            return X.asbool(X.app('less', 'b', a[1], a[0]))
        return X.top(n)
    if n == 'std::operator<<' or n == 'std::operator>>':
        return stream(I, e)
    if short in MATH and n in ('std::' + short, short):
        a = args_(I, e)
        r = math(I, short, [I.load(x) for x in a], e)
        if r is not None:
            return r
    if n in ALGO:
        a = args_(I, e)
        vs = [I.load(x) for x in a]
        if len(vs) > 1 and vs[0].op == 'iter' and vs[1].op == 'mitend' and isinstance(vs[0].a[0], tuple):
            vs = [vs[0], mk('iter', vs[0].a[0], X.length(I.load(vs[0].a[0])))] + list(vs[2:])
        if len(vs) > 1 and vs[0].op == 'mit' and vs[1].op == 'mitend' and vs[0].a[2].op in ('lf', 'rec', 'str'):
            vs = mapents(I, vs) + list(vs[2:])
        if len(vs) > 1 and vs[0].op == 'rec' and vs[1].op == 'rec':
            vs = geoents(I, e, vs) or vs
        return ALGO[n](I, e, a, vs)
    if n.startswith('std::basic_ostream::operator<<') or n.startswith('std::basic_istream::operator>>'):
        return stream(I, e)
    return None


def isptrlike(e):
    p = e.get('pt', [''])
    return 'shared_ptr' in p[0] or 'unique_ptr' in p[0]


def stream(I, e):
    op = 'put' if '<<' in e['n'] else 'get'
    if e.get('obj') is not None:
        o = recv(I, e)
        a = args_(I, e)
        rest = a
    else:
        a = args_(I, e)
        o, rest = a[0], a[1:]
    st = I.load(o)
    c = I.mkcall('stream' + op, [I.snap(st)] + ([derefs(I, I.load(x)) for x in rest] if op == 'put' else [X.strc(e.get('pt', [''])[-1])]))
    if op == 'get':
        for i, x in enumerate(rest):
            I.store(x, I.symval(I_().base(e['pt'][-1]), I.mkcall('read%d' % i, [I.snap(st)])))
    I.store(o, I.symval('std::stream', c))
    return ptrto(o)


# ------------------------------------------------------------------ algorithms
def need(*its):
    for it in its:
        if not isiter(it):
            raise I_().Undecided('algorithm over ' + it.op)


def mapents(I, v):
    """the range of a whole map as the list of its entries"""
    m = I.snap(I.load((v[0].a[0], v[0].a[1])))
    kt, vt = I.mtypes(m)
    lv = I.newloc('entries', X.lapp('entries', 'std::pair<%s, %s>' % (kt, vt), m))
    return [mk('iter', lv, X.ZERO), mk('iter', lv, X.length(I.load(lv)))]


def geoents(I, e, v):
    """the range c.begin(), c.end() of a whole constant geometry container as the list of its elements"""
    from .interp import GEOM, base
    b, f = e['a'][0], e['a'][1]
    while b['k'] in ('cast', 'ctor', 'up', 'un') and isinstance(b.get('e', (b.get('a') or [None])[0]), dict):
        b = b.get('e') or b['a'][0]
    while f['k'] in ('cast', 'ctor', 'up', 'un') and isinstance(f.get('e', (f.get('a') or [None])[0]), dict):
        f = f.get('e') or f['a'][0]
    if b['k'] != 'call' or f['k'] != 'call' or b.get('arrow') or f.get('arrow'):
        return None
    if b['n'].rsplit('::', 1)[-1] not in ('begin', 'cbegin') or f['n'].rsplit('::', 1)[-1] not in ('end', 'cend'):
        return None
    if not base(b.get('rt', '')).endswith('::ConstIterator'):
        return None
    o1, o2 = b['obj'], f['obj']
    while o1['k'] == 'up':
        o1 = o1['e']
    while o2['k'] == 'up':
        o2 = o2['e']
    rt = base(o1['t'])
    if rt not in GEOM or o1['k'] != 'ref' or o2['k'] != 'ref' or o1['d'] != o2['d']:
        return None
    lv = I.lv(o1)
    child = GEOM[rt][1]
    out = I.newloc('elems', X.EMPTY, 'std::vector<%s>' % child)

    def body(ix):
        el = I.newloc('elem', X.NONE, child)
        I.construct(child, [], el)
        I.callkey('%s::getGeometry(unsigned long, %s &) const' % (rt, child), lv, [I.tmp(ix), el])
        I.store(out, X.concat(I.load(out), X.single(I.load(el))))
    n = I.callkey('%s::size() const' % rt, lv, [])
    loop(I, X.ZERO, n, body, e)
    return [mk('iter', out, X.ZERO), mk('iter', out, X.length(I.load(out)))] + list(v[2:])


def a_accumulate(I, e, a, v):
    need(v[0], v[1])
    acc = I.newloc('acc', I.share(v[2], a[2]), e['rt'])

    def body(ix):
        el = iplace(v[0], ix)
        if len(v) > 3:
            r = I.calllam(v[3], [acc, el])
            if r.op == 'ptr':
                r = I.load((r.a[0], r.a[1]))
        else:
            r = I.binop('+', I.load(acc), I.load(el), e['rt'])
        I.store(acc, I.convert(r, e['rt']))
    loop(I, v[0].a[1], v[1].a[1], body, e)
    return I.load(acc)


def a_for_each(I, e, a, v):
    need(v[0], v[1])
    loop(I, v[0].a[1], v[1].a[1], lambda ix: I.calllam(v[2], [iplace(v[0], ix)]), e)
    return v[2]


def outstore(I, out, k, val):
    if out.op == 'bins':
        lv = (out.a[0], out.a[1])
        I.store(lv, X.concat(I.load(lv), X.single(val)))
    elif isiter(out):
        I.store(ext(out.a[0], ('i', X.add(out.a[1], k))), val)
    else:
        raise I_().Undecided('output iterator')


def a_transform(I, e, a, v):
    need(v[0], v[1])
    bin_ = len(v) == 5
    out = v[3] if bin_ else v[2]
    f = v[4] if bin_ else v[3]

    def body(ix):
        k = X.sub(ix, v[0].a[1])
        ps = [iplace(v[0], ix)] + ([iplace(v[2], X.add(v[2].a[1], k))] if bin_ else [])
        r = I.calllam(f, ps)
        if r.op == 'ptr':
            r = I.load((r.a[0], r.a[1]))
        outstore(I, out, k, r)
    loop(I, v[0].a[1], v[1].a[1], body, e)
    if isiter(out):
        return mk('iter', out.a[0], X.add(out.a[1], X.sub(v[1].a[1], v[0].a[1])))
    return out


def a_copy(I, e, a, v):
    need(v[0], v[1])
    loop(I, v[0].a[1], v[1].a[1], lambda ix: outstore(I, v[2], X.sub(ix, v[0].a[1]), I.load(iplace(v[0], ix))), e)
    return v[2]


def extremum(sign):
    def f(I, e, a, v):
        need(v[0], v[1])
        best = I.newloc('best', v[0].a[1], 'long')

        def body(ix):
            x, y = iplace(v[0], ix), iplace(v[0], I.load(best))
            if len(v) > 2:
                c = I.calllam(v[2], [x, y] if sign < 0 else [y, x])
            else:
                c = X.lt(I.load(x), I.load(y)) if sign < 0 else X.lt(I.load(y), I.load(x))
            I.store(best, ite(c, ix, I.load(best)))
        loop(I, X.add(v[0].a[1], X.ONE), v[1].a[1], body, e)
        return mk('iter', v[0].a[0], I.load(best))
    return f


def a_find(I, e, a, v):
    need(v[0], v[1])
    return search(I, e, v, lambda el: X.eq(I.load(el), v[2]))


def a_find_if(I, e, a, v):
    need(v[0], v[1])
    return search(I, e, v, lambda el: I.calllam(v[2], [el]))


def search(I, e, v, pred):
    done = I.newloc('found', FALSE, 'bool')
    pos = I.newloc('pos', v[1].a[1], 'long')
    ix = X.var('ixfind%d' % I.nphi, 'i')
    I.nphi += 1
    c = X.asbool(pred(iplace(v[0], X.add(v[0].a[1], ix))))
    n = X.sub(v[1].a[1], v[0].a[1])
    anyc = X.any_(n, ix, c)
    return mk('iter', v[0].a[0], ite(anyc, X.add(v[0].a[1], X.first_(n, ix, c)), v[1].a[1]))


def a_anyof(kind):
    def f(I, e, a, v):
        need(v[0], v[1])
        ix = X.var('ixany%d' % I.nphi, 'i')
        I.nphi += 1
        c = X.asbool(I.calllam(v[2], [iplace(v[0], X.add(v[0].a[1], ix))]))
        n = X.sub(v[1].a[1], v[0].a[1])
        if kind == 'any':
            return X.any_(n, ix, c)
        if kind == 'none':
            return not_(X.any_(n, ix, c))
        if kind == 'all':
            return not_(X.any_(n, ix, not_(c)))
        return X.sum_(n, ix, ite(c, X.ONE, X.ZERO))
    return f


def cmpdescr(I, f, et):
    x = I.newloc('cx', I.symval(et, ('n', '@x')), et)
    y = I.newloc('cy', I.symval(et, ('n', '@y')), et)
    return X.asbool(I.calllam(f, [x, y]))


def whole(I, v):
    """(place, is whole container)"""
    L = I.load(v[0].a[0])
    return v[0].a[0], L, v[0].a[1] is X.ZERO and v[1].a[1] is X.length(L)


def replace(I, v, f):
    """replace the elements of [v0,v1) by f(sub-sequence)"""
    p, L, w = whole(I, v)
    if w:
        I.store(p, f(L))
        return
    lo, hi = v[0].a[1], v[1].a[1]
    mid = f(X.slice_(L, lo, hi))
    I.store(p, X.concat(X.concat(X.slice_(L, X.ZERO, lo), mid), X.slice_(L, hi, X.length(L))))


def eltype(I, p, e):
    t = e['fn']
    return I.etype(I.load(p)) if I.load(p).op == 'list' else '?'


def a_sort(I, e, a, v):
    need(v[0], v[1])
    et = eltype(I, v[0].a[0], e)
    d = cmpdescr(I, v[2], et) if len(v) > 2 else X.strc('<')
    if len(v) <= 2 and et in I.p.recs:
        for k in I.p.fns:
            if k.startswith(et + '::operator<('):
                x = I.newloc('cx', I.symval(et, ('n', '@x')), et)
                y = I.newloc('cy', I.symval(et, ('n', '@y')), et)
                d = X.asbool(I.invoke(I.p.fns[k], x, [y]))
                break
    replace(I, v, lambda L: sorted_(L, d, et))
    return VOID


def sorted_(L, d, et):
    if L.op == 'list' and len(L.a) <= 1 and (not L.a or L.a[0][0] == 'e'):
        return L
    return X.lapp('sort', et, L, mk('descr', d))


def a_reverse(I, e, a, v):
    need(v[0], v[1])
    replace(I, v, X.rev)
    return VOID


def a_rotate(I, e, a, v):
    need(v[0], v[2])
    lo, mid = v[0].a[1], v[1].a[1]
    m = X.sub(mid, lo)
    I.oblige('range', e, or_(X.lt(m, X.ZERO), X.lt(v[2].a[1], mid)), m)
    replace(I, [v[0], v[2]], lambda L: X.concat(X.slice_(L, m, X.length(L)), X.slice_(L, X.ZERO, m)))
    return NONE


def a_iota(I, e, a, v):
    need(v[0], v[1])
    loop(I, v[0].a[1], v[1].a[1], lambda ix: I.store(iplace(v[0], ix), X.add(v[2], X.sub(ix, v[0].a[1]))), e)
    return VOID


def a_fill(I, e, a, v):
    need(v[0], v[1])
    loop(I, v[0].a[1], v[1].a[1], lambda ix: I.store(iplace(v[0], ix), v[2]), e)
    return VOID


def a_filter(name):
    def f(I, e, a, v):
        need(v[0], v[1])
        et = eltype(I, v[0].a[0], e)
        if name == 'remove_if':
            x = I.newloc('cx', I.symval(et, ('n', '@x')), et)
            d = X.asbool(I.calllam(v[2], [x]))
        elif name == 'remove':
            d = v[2]
        else:
            d = cmpdescr(I, v[2], et) if len(v) > 2 else X.strc('=')
            if len(v) <= 2 and et in I.p.recs:
                d = opeq(I, et)
        p, L, w = whole(I, v)
        if not w:
            raise I_().Undecided(name + ' on part')
        kept = X.lapp(name, et, L, mk('descr', d))
        rest = X.lapp(name + '-rest', et, L, mk('descr', d))
        I.store(p, X.concat(kept, rest))
        return mk('iter', p, X.length(kept))
    return f


def opeq(I, et):
    for c in I.p.bases(et):
        for k in I.p.fns:
            if k.startswith(c + '::operator==('):
                x = I.newloc('cx', I.symval(et, ('n', '@x')), et)
                y = I.newloc('cy', I.symval(et, ('n', '@y')), et)
                return X.asbool(I.invoke(I.p.fns[k], x, [y]))
    return X.strc('=')


def a_bound(name):
    """the first element that is not before (lower) or that is after (upper) the value, in an ordered sequence"""
    def f(I, e, a, v):
        need(v[0], v[1])
        val = I.newloc('bound', v[2], base_(e))

        def pred(el):
            if len(v) > 3:
                return not_(I.calllam(v[3], [el, val])) if name == 'lower_bound' else I.calllam(v[3], [val, el])
            x = I.load(el)
            if X.kind(x) not in ('i', 'r') or X.kind(v[2]) not in ('i', 'r'):
                raise I_().Undecided(name)
            return not_(X.lt(x, v[2])) if name == 'lower_bound' else X.lt(v[2], x)
        return search(I, e, v, pred)
    return f


def base_(e):
    from .interp import base
    pt = e.get('pt') or []
    return base(pt[2]) if len(pt) > 2 else 'double'


def a_partial_sum(I, e, a, v):
    need(v[0], v[1])
    acc = I.newloc('acc', X.ZERO, 'double')

    def body(ix):
        I.store(acc, X.add(I.load(acc), I.load(iplace(v[0], ix))))
        outstore(I, v[2], X.sub(ix, v[0].a[1]), I.load(acc))
    loop(I, v[0].a[1], v[1].a[1], body, e)
    return v[2]


def a_distance(I, e, a, v):
    return X.sub(v[1].a[1], v[0].a[1])


def a_next(s):
    def f(I, e, a, v):
        return mk('iter', v[0].a[0], X.add(v[0].a[1], X.mul(num(s), v[1] if len(v) > 1 else X.ONE)))
    return f


def same_els(I, x, y, pred=None, et=None):
    """do two elements (places) compare equal"""
    if pred is not None:
        return X.asbool(I.calllam(pred, [x, y]))
    a, b = I.load(x), I.load(y)
    if (et or '') in I.p.recs:
        for c in I.p.bases(et):
            for k in I.p.fns:
                if k.startswith(c + '::operator==('):
                    return X.asbool(I.invoke(I.p.fns[k], x, [y]))
        raise I_().Undecided('comparison of ' + et)
    return X.eq(a, b)


def a_adjacent_find(I, e, a, v):
    need(v[0], v[1])
    et = eltype(I, v[0].a[0], e)
    w = mk('iter', v[1].a[0], ite(X.lt(v[0].a[1], v[1].a[1]), X.sub(v[1].a[1], X.ONE), v[0].a[1]))
    r = search(I, e, [v[0], w], lambda el: same_els(I, el, nextplace(el), v[2] if len(v) > 2 else None, et))
    return mk('iter', r.a[0], ite(X.eq(r.a[1], w.a[1]), v[1].a[1], r.a[1]))


def nextplace(el):
    return (el[0], el[1][:-1] + (('i', X.add(el[1][-1][1], X.ONE)),))


def a_equal(I, e, a, v):
    need(v[0], v[1], v[2])
    et = eltype(I, v[0].a[0], e)
    four = len(v) > 3 and isiter(v[3])
    pred = v[4] if four and len(v) > 4 else v[3] if not four and len(v) > 3 else None
    r = search(I, e, v[:2], lambda el: not_(same_els(
        I, el, iplace(v[2], X.add(v[2].a[1], X.sub(el[1][-1][1], v[0].a[1]))), pred, et)))
    c = X.eq(r.a[1], v[1].a[1])
    if four:
        n, m = X.sub(v[1].a[1], v[0].a[1]), X.sub(v[3].a[1], v[2].a[1])
        return ite(X.eq(n, m), c, FALSE)
    return c


def a_count(I, e, a, v):
    need(v[0], v[1])
    if eltype(I, v[0].a[0], e) in I.p.recs:
        raise I_().Undecided('count of objects')
    ix = X.var('ixany%d' % I.nphi, 'i')
    I.nphi += 1
    c = X.asbool(X.eq(I.load(iplace(v[0], X.add(v[0].a[1], ix))), v[2]))
    return X.sum_(X.sub(v[1].a[1], v[0].a[1]), ix, ite(c, X.ONE, X.ZERO))


def a_find_if_not(I, e, a, v):
    need(v[0], v[1])
    return search(I, e, v, lambda el: not_(X.asbool(I.calllam(v[2], [el]))))


def a_copy_if(I, e, a, v):
    need(v[0], v[1])
    if v[2].op != 'bins':
        raise I_().Undecided('copy_if onto a range')
    lv = (v[2].a[0], v[2].a[1])

    def body(ix):
        el = iplace(v[0], ix)
        c = X.asbool(I.calllam(v[3], [el]))
        old = I.load(lv)
        I.store(lv, ite(c, X.concat(old, X.single(I.load(el))), old))
    loop(I, v[0].a[1], v[1].a[1], body, e)
    return v[2]


def a_copy_n(I, e, a, v):
    need(v[0])
    loop(I, v[0].a[1], X.add(v[0].a[1], v[1]),
         lambda ix: outstore(I, v[2], X.sub(ix, v[0].a[1]), I.load(iplace(v[0], ix))), e)
    return v[2]


def a_fill_n(I, e, a, v):
    if v[0].op != 'bins':
        need(v[0])
    loop(I, X.ZERO, v[1], lambda ix: outstore(I, v[0], ix, v[2]), e)
    return v[0]


def a_inner_product(I, e, a, v):
    need(v[0], v[1], v[2])
    acc = I.newloc('acc', I.share(v[3], a[3]), e['rt'])

    def val(r):
        return I.load((r.a[0], r.a[1])) if r.op == 'ptr' else r

    def body(ix):
        x = iplace(v[0], ix)
        y = iplace(v[2], X.add(v[2].a[1], X.sub(ix, v[0].a[1])))
        if len(v) > 5:
            m = val(I.calllam(v[5], [x, y]))
            r = val(I.calllam(v[4], [acc, I.tmp(m)]))
        else:
            m = I.binop('*', I.load(x), I.load(y), e['rt'])
            r = I.binop('+', I.load(acc), m, e['rt'])
        I.store(acc, I.convert(r, e['rt']))
    loop(I, v[0].a[1], v[1].a[1], body, e)
    return I.load(acc)


ALGO = {'std::accumulate': a_accumulate, 'std::for_each': a_for_each, 'std::transform': a_transform,
        'std::copy': a_copy, 'std::min_element': extremum(-1), 'std::max_element': extremum(1),
        'std::find': a_find, 'std::find_if': a_find_if, 'std::any_of': a_anyof('any'), 'std::all_of': a_anyof('all'),
        'std::none_of': a_anyof('none'), 'std::count_if': a_anyof('count'), 'std::sort': a_sort,
        'std::stable_sort': a_sort, 'std::reverse': a_reverse, 'std::rotate': a_rotate, 'std::_V2::rotate': a_rotate,
        'std::iota': a_iota, 'std::fill': a_fill, 'std::remove_if': a_filter('remove_if'), 'std::remove': a_filter('remove'),
        'std::unique': a_filter('unique'), 'std::lower_bound': a_bound('lower_bound'), 'std::upper_bound': a_bound('upper_bound'),
        'std::adjacent_find': a_adjacent_find, 'std::equal': a_equal, 'std::count': a_count,
        'std::find_if_not': a_find_if_not, 'std::copy_if': a_copy_if, 'std::copy_n': a_copy_n, 'std::fill_n': a_fill_n,
        'std::inner_product': a_inner_product, 'std::partial_sum': a_partial_sum, 'std::distance': a_distance, 'std::next': a_next(1), 'std::prev': a_next(-1)}


# ------------------------------------------------------------------ vectors
def vector(I, e, short):
    o = recv(I, e)
    L = I.load(o)
    if short in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'clear', 'data', 'capacity'):
        if short == 'size':
            return X.length(L)
        if short == 'empty':
            return X.eq(X.length(L), X.ZERO)
        if short in ('begin', 'cbegin', 'data'):
            return mk('iter', o, X.ZERO)
        if short in ('end', 'cend'):
            return mk('iter', o, X.length(L))
        if short == 'clear':
            I.store(o, X.EMPTY)
            return VOID
        return X.top('vector ' + short)
    if short in ('operator[]', 'at', 'back', 'front'):
        if short == 'back':
            i = X.sub(X.length(L), X.ONE)
            I.oblige('bounds', e, X.lt(i, X.ZERO), (L, i))
        elif short == 'front':
            i = X.ZERO
            I.oblige('bounds', e, X.lt(X.length(L), X.ONE), (L, i))
        else:
            i = I.load(args_(I, e)[0])
            out = not_(X.lt(i, X.length(I.load(o))))
            if short == 'at':
                I.raise_('std::out_of_range', ['std::logic_error', 'std::exception'], e.get('l'), or_(out, X.lt(i, X.ZERO)))
            else:
                I.oblige('bounds', e, or_(out, X.lt(i, X.ZERO)), (L, i))
        return ptrto(ext(o, ('i', i)))
    a = args_(I, e)
    v = [I.load(x) for x in a]
    from .interp import tmpl, base
    et = elemtype(I, e['cls'])
    if short in ('push_back', 'emplace_back'):
        L = I.load(o)
        if short == 'emplace_back' and not (len(v) == 1 and (base(e['pt'][0]) == et or et in I_().REALS or et in I_().INTS or et == 'bool')):
            if et.startswith('std::vector') or et.startswith('std::basic_string') or et.startswith('std::pair'):
                new = emplace(I, et, a, v, e)
            elif et in I.p.recs:
                new = emplaceclass(I, et, a, v, e)
            else:
                new = emplace(I, et, a, v, e)
        else:
            new = I.convert(I.share(v[0], a[0]), et)
        I.store(o, X.concat(I.load(o), X.single(new)))
        return ptrto(ext(o, ('i', X.length(L))))
    if short == 'pop_back':
        I.store(o, X.slice_(L, X.ZERO, X.sub(X.length(L), X.ONE)))
        return VOID
    if short == 'operator=':
        I.store(o, v[0])
        return ptrto(o)
    if short == 'assign':
        if isiter(v[0]):
            I.store(o, X.slice_(I.load(v[0].a[0]), v[0].a[1], v[1].a[1]))
        elif v[0].op == 'list':
            I.store(o, v[0])
        else:
            I.store(o, X.fill(v[0], v[1]))
        return VOID
    if short == 'resize':
        d = v[1] if len(v) > 1 else I.default_value(et, zero=True)
        n, cur = v[0], X.length(L)
        I.store(o, cases3(X.lt(cur, n), lambda: X.concat(L, X.fill(X.sub(n, cur), d)), lambda: X.slice_(L, X.ZERO, n)))
        return VOID
    if short == 'reserve':
        return VOID
    if short == 'erase':
        L = I.load(o)
        lo = v[0].a[1]
        hi = v[1].a[1] if len(v) > 1 else X.add(lo, X.ONE)
        I.store(o, X.concat(X.slice_(L, X.ZERO, lo), X.slice_(L, hi, X.length(L))))
        return mk('iter', o, lo)
    if short == 'insert':
        L = I.load(o)
        p = v[0].a[1]
        if len(v) == 3 and isiter(v[1]):
            mid = X.slice_(I.load(v[1].a[0]), v[1].a[1], v[2].a[1])
        elif len(v) == 2:
            mid = X.single(I.share(v[1], a[1])) if v[1].op != 'list' or et.startswith('std::vector') else v[1]
        else:
            mid = X.fill(v[1], v[2])
        I.store(o, X.concat(X.concat(X.slice_(L, X.ZERO, p), mid), X.slice_(L, p, X.length(L))))
        return mk('iter', o, p)
    if short == 'swap':
        w = I.load(a[0])
        I.store(a[0], L)
        I.store(o, w)
        return VOID
    return X.top('vector ' + short)


def cases3(c, f, g):
    if c is TRUE:
        return f()
    if c is FALSE:
        return g()
    return ite(c, f(), g())


def emplace(I, et, a, v, e):
    from .interp import tmpl, base
    n, ta = tmpl(et)
    if n == 'std::pair' and len(v) == 2:
        return X.rec('std::pair', [('first', v[0]), ('second', v[1])])
    if et.startswith('std::basic_string'):
        return derefstr(I, v[0]) if len(v) == 1 else X.top('string')
    if n in VEC:
        if not v:
            return X.EMPTY
        if len(v) == 1 and v[0].op == 'list':
            return v[0]
        if isiter(v[0]):
            return X.slice_(I.load(v[0].a[0]), v[0].a[1], v[1].a[1])
        return X.fill(v[0], v[1] if len(v) > 1 else I.default_value(ta[0], zero=True))
    if len(v) == 1:
        return I.share(v[0], a[0])
    return X.top('emplace ' + et)


def emplaceclass(I, et, a, v, e):
    """constructor of et selected by the argument types (exact match up to value conversions)"""
    from .interp import tmpl, base, splitargs, INTS, REALS
    nm = I_().re.sub(r'<.*', '', et).split('::')[-1]
    ats = [base(t) for t in e.get('pt', [])]
    if len(ats) == 1 and (ats[0] == et or et in I.p.bases(ats[0])):
        return I.share(v[0], a[0])
    best = None
    for cl in I.p.bases(et):
        n2 = I_().re.sub(r'<.*', '', cl).split('::')[-1]
        for k, f in I.p.fns.items():
            if not k.startswith('%s::%s(' % (cl, n2)) or f.get('cls') != cl:
                continue
            ps = f['params']
            if len(ats) > len(ps) or any('def' not in p for p in ps[len(ats):]):
                continue
            sc = 0
            for t, p in zip(ats, ps):
                b = base(p['t'])
                if b == t:
                    continue
                if (b in INTS or b in REALS or b in I.p.enums) and (t in INTS or t in REALS or t in I.p.enums):
                    sc += 1
                elif b in I.p.bases(t):
                    sc += 1
                elif b.endswith('*') and t.endswith('*'):
                    sc += 2
                else:
                    sc = None
                    break
            if sc is not None and (best is None or sc < best[0]):
                best = (sc, k, f)
        if best:
            break
    if not best:
        if not v:
            l = I.newloc('obj', NONE, et)
            I.construct(et, [], l)
            return I.load(l)
        raise I_().Undecided('emplace_back of ' + et)
    l = I.newloc('obj', NONE, et)
    args = []
    for x, p in zip(a, best[2]['params']):
        args.append(x if I_().isref(p['t']) else I.newloc(p['n'], I.convert(I.share(I.load(x), x), p['t']), p['t']))
    I.construct(et, args, l, best[1])
    return I.load(l)


# ------------------------------------------------------------------ maps
def mapcall(I, e, short):
    from .interp import tmpl, base
    o = recv(I, e)
    m = I.load(o)
    kt, vt = [base(x) for x in tmpl(e['cls'])[1][:2]]
    a = args_(I, e)
    v = [I.snap(I.load(x)) for x in a]
    if short == 'operator[]':
        h = I.mhas(m, v[0])
        if h is not TRUE:
            d = I.default_value(vt, zero=True)
            cur = I.load(o)
            I.store(o, ite(h, cur, I.mset(cur, v[0], d)) if h is not FALSE else I.mset(cur, v[0], d))
        return ptrto(ext(o, ('k', v[0])))
    if short == 'at':
        I.raise_('std::out_of_range', ['std::logic_error', 'std::exception'], e.get('l'), not_(I.mhas(m, v[0])))
        return ptrto(ext(o, ('k', v[0])))
    if short == 'count' or short == 'contains':
        r = I.mhas(m, v[0])
        return X.tonum(r) if short == 'count' else r
    if short == 'find':
        return ite(I.mhas(m, v[0]), mk('mit', o[0], tuple(o[1]), v[0]), mk('mitend'))
    if short in ('end', 'cend'):
        return mk('mitend')
    if short in ('begin', 'cbegin'):
        return mapents(I, [mk('mit', o[0], tuple(o[1]), X.ZERO)])[0]
    if short == 'size':
        return X.app('msize', 'i', I.snap(m)) if m.op != 'mempty' else X.ZERO
    if short == 'empty':
        return X.eq(X.app('msize', 'i', I.snap(m)), X.ZERO) if m.op != 'mempty' else TRUE
    if short == 'clear':
        I.store(o, mk('mempty', kt, vt))
        return VOID
    if short == 'erase':
        k = v[0]
        if k.op == 'mit':
            k = k.a[2]
        if k.op == 'iter' and isinstance(k.a[0], tuple):
            k = X.fld(X.at(I.load(k.a[0]), k.a[1]), 'first')
        if m.op == 'mempty':
            return X.ZERO
        h = I.mhas(m, k)
        I.store(o, mk('merase', I.snap(m), k))
        return X.tonum(h)
    if short in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        if len(v) == 1 and v[0].op == 'list':
            for s in v[0].a:
                if s[0] != 'e':
                    raise I_().Undecided('map insert of a list')
                cur = I.load(o)
                k, val = X.fld(s[1], 'first'), X.fld(s[1], 'second')
                h = I.mhas(cur, k)
                new = I.mset(cur, k, val)
                I.store(o, ite(h, cur, new))
            return VOID
        if len(v) == 1:
            k, val = X.fld(v[0], 'first'), X.fld(I.load(a[0]), 'second')
        else:
            k, val = v[0], I.load(a[1])
        h = I.mhas(m, k)
        new = I.mset(m, k, val)
        I.store(o, new if short == 'insert_or_assign' else ite(h, m, new))
        return X.rec('std::pair', [('first', mk('mit', o[0], tuple(o[1]), k)), ('second', not_(h))])
    if short == 'operator=':
        I.store(o, v[0])
        return ptrto(o)
    return X.top('map ' + short)


def iterop(I, e, short):
    if e.get('obj') is not None:
        o = recv(I, e)
        v = I.load(o)
        a = args_(I, e)
    else:
        a = args_(I, e)
        o = a[0]
        v = I.load(o)
        a = a[1:]
    if short == 'operator*' or short == 'operator->':
        def f(x):
            if x.op == 'iter' and isinstance(x.a[0], tuple):
                L = I.load(x.a[0])
                I.oblige('bounds', e, or_(not_(X.lt(x.a[1], X.length(L))), X.lt(x.a[1], X.ZERO)), (L, x.a[1]))
                return ptrto(iplace(x, x.a[1]))
            if x.op == 'mit':
                lv = (x.a[0], x.a[1])
                val = ext(lv, ('k', x.a[2]))
                # a place holding the key and a pointer to the mapped value
                l = I.newloc('entry', X.rec('std::pair', [('first', x.a[2]), ('second', I.share_alias(val))]))
                return ptrto(l)
            if x.op == 'mitend':
                return NULL
            if x.op in ('ptr', 'own', 'null'):
                return x
            return X.top('iterator deref ' + x.op)
        return cases(v, f)
    w = [I.load(x) for x in a]
    if short in ('operator+', 'operator-') and w:
        if isiter(v) and isiter(w[0]):
            return X.sub(v.a[1], w[0].a[1])
        return cases(v, lambda x: mk('iter', x.a[0], X.add(x.a[1], w[0]) if short[-1] == '+' else X.sub(x.a[1], w[0])) if x.op == 'iter' else X.top('iter arith'))
    if short in ('operator++', 'operator--'):
        new = cases(v, lambda x: mk('iter', x.a[0], X.add(x.a[1], num(1 if short[-1] == '+' else -1))) if x.op == 'iter' else X.top('iter step'))
        I.store(o, new)
        return v if w else ptrto(o)
    if short in ('operator+=', 'operator-='):
        I.store(o, mk('iter', v.a[0], X.add(v.a[1], w[0]) if short[-2] == '+' else X.sub(v.a[1], w[0])))
        return ptrto(o)
    if short in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        return I.binop(short[8:], v, w[0], 'bool')
    if short == 'operator[]':
        return ptrto(iplace(v, X.add(v.a[1], w[0])))
    if short == 'operator=':
        I.store(o, w[0])
        return ptrto(o)
    return X.top('iterator ' + short)


# ------------------------------------------------------------------ strings
def strapp(name, kind, *v):
    """function of strings, folded when all of them are constants"""
    from . import rand
    def const(x):
        return x.op == 'num' or x.op == 'str' and X.isconststr(x)
    g = rand.STRFN.get(name)
    if g and all(const(x) for x in v):
        try:
            r = g(*[x.a[0] if x.op == 'num' else ''.join(q[1] for q in x.a) for x in v])
            return X.strc(r) if isinstance(r, str) else num(r)
        except (rand.OOB, rand.Skip, rand.Unknown):
            pass
    return X.app(name, kind, *v)


def string(I, e, short):
    o = recv(I, e)
    s = I.load(o)
    a = args_(I, e)
    v = [derefstr(I, I.load(x)) for x in a]
    if short == 'c_str' or short == 'data':
        return s
    if short == 'empty':
        return X.eq(s, X.strc(''))
    if short in ('size', 'length'):
        return X.length(s) if s.op in ('str', 'ite') else X.app('strlen', 'i', s)
    if short in ('operator=', 'assign') and len(v) == 1:
        I.store(o, v[0])
        return ptrto(o)
    if short in ('operator+=', 'append', 'push_back') and len(v) == 1:
        I.store(o, X.strcat(s, v[0]))
        return ptrto(o)
    if short == 'clear':
        I.store(o, X.strc(''))
        return VOID
    if short in ('find', 'rfind', 'compare', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
        if 'last' not in short and short not in ('rfind', 'compare'):
            v = v[:1] if len(v) > 1 and v[1] is X.ZERO else v
        else:
            v = v[:1] if len(v) > 1 and v[1].op == 'num' and v[1].a[0] > 2**60 else v
        return strapp('str' + short, 'i', s, *v)
    if short == 'substr':
        if v[0] is X.ZERO and len(v) < 2:
            return s
        def f(s_, *w):
            if X.isconststr(s_) and s_.op == 'str' and all(x.op == 'num' for x in w[:1]) and len(w) == 1:
                t = s_.a[0][1] if s_.a else ''
                return X.strc(t[int(w[0].a[0]):])
            r = strapp('substr', 's', s_, *w)
            return r if r.op == 'str' else mk('str', ('a', r))
        vv = [x for x in v if not (x.op == 'sym' and 'npos' in str(x.a[0]))]
        vv = [x for x in vv if not (x.op == 'num' and x.a[0] > 2**60)]
        return X.lift('substr', f, s, *vv)
    if short in ('at', 'operator[]'):
        return ptrto(I.tmp(X.app('charat', 'i', s, *v)))
    if short in ('front', 'back'):
        return ptrto(I.tmp(X.app('charat', 'i', s, X.ZERO if short == 'front' else X.sub(X.length(s) if s.op in ('str', 'ite') else X.app('strlen', 'i', s), X.ONE))))
    if short in ('replace', 'insert', 'erase'):
        r = mk('str', ('a', X.app('str' + short, 's', s, *v)))
        I.store(o, r)
        return ptrto(o)
    return X.top('string ' + short)


# ------------------------------------------------------------------ smart pointers, optional
STREAMS = ('std::basic_ostream::', 'std::basic_istream::', 'std::ios_base::', 'std::basic_ios::', 'std::basic_stringstream::',
           'std::basic_ostringstream::', 'std::basic_ifstream::', 'std::operator<<')


def stream(I, e, n, short):
    """text written to a string stream, numbers read from a file one after another"""
    a = None
    if e.get('obj') is not None:
        o = recv(I, e)
    else:
        a = args_(I, e)
        o, a = a[0], a[1:]
    while True:
        s = I.load(o)
        if s.op != 'ptr':
            break
        o = (s.a[0], s.a[1])
    if s.op != 'rec' or s.a[0] not in ('std::basic_ifstream', 'std::basic_stringstream', 'std::basic_ostringstream'):
        return X.top(n) if a is not None or e.get('op') else None
    if a is None:
        a = args_(I, e)
    put = lambda f, v: I.store((o[0], tuple(o[1]) + (('f', f),)), v)
    if s.a[0] == 'std::basic_ifstream':
        nums = I.symval('std::vector<double>', I.mkcall('numbers', [X.fld(s, 'file')]))
        pos = X.fld(s, 'pos')
        if short == 'operator>>' and 'double' in e['pt'][-1]:
            old = I.load(a[0])
            I.store(a[0], ite(X.lt(pos, X.length(nums)), X.at(nums, pos), X.ZERO))
            put('pos', X.add(pos, X.ONE))
            return ptrto(o)
        if short in ('operator bool', 'good') or short == 'fail' or short == 'operator!':
            ok = X.le(pos, X.length(nums))
            return ok if short in ('operator bool', 'good') else not_(ok)
        if short == 'close':
            return VOID
        return X.top('stream ' + short)
    if short == 'precision' and len(a) == 1:
        old = X.fld(s, 'prec')
        put('prec', I.load(a[0]))
        return old
    if short == 'imbue':
        old = X.fld(s, 'loc')
        put('loc', derefs(I, I.load(a[0])))
        return old
    if short == 'str' and not a:
        return X.fld(s, 'out')
    if short == 'operator<<':
        t = e['pt'][-1]
        v = I.load(a[0])
        if 'basic_string<' in t or 'char' in t:
            if 'char' == t.strip():
                return X.top('stream char')
            v = derefstr(I, v)
        elif t in ('double', 'float'):
            v = mk('str', ('a', X.app('fmt', 's', v, X.fld(s, 'prec'), X.fld(s, 'loc'))))
        elif t in ('int', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long'):
            v = mk('str', ('a', X.app('to_string', 's', v)))
        else:
            return X.top('stream << ' + t)
        put('out', X.strcat(X.fld(s, 'out'), v))
        return ptrto(o)
    return X.top('stream ' + short)


def makeptr(I, e, n):
    """std::make_unique<T>(args) and std::make_shared<T>(args): a new object of its own"""
    from .interp import tmpl, base
    t = base(tmpl(base(e.get('rt') or e['t']))[1][0])
    a = args_(I, e)
    pts = e.get('pt', [])
    if not a:
        return X.own(I.default_value(t, True))
    if len(a) == 1 and pts and base(pts[0]).rstrip('&').strip() in (t, 'const ' + t):
        return X.own(I.share(I.load(a[0]), a[0]))
    if t in I.p.recs:
        nm = t.split('<')[0].split('::')[-1]
        keys = [k for k in I.p.fns if k.startswith('%s::%s(' % (t, nm)) and len(I.p.fns[k].get('params', [])) == len(a)]
        if len(keys) == 1:
            l = I.newloc('obj', NONE, t)
            I.construct(t, a, l, keys[0])
            return X.own(I.st.store[l[0]])
    return X.top(n)


def smart(I, e, short):
    o = recv(I, e)
    v = I.load(o)
    if short.startswith('operator bool'):
        return cases(v, lambda x: FALSE if x.op == 'null' else TRUE if x.op in ('ptr', 'own') else X.asbool(X.app('nonnull', 'b', x)))
    if short in ('operator*',):
        return ptrval(I, o)
    a = args_(I, e)
    if short == 'operator=':
        I.store(o, I.share(I.load(a[0]), a[0]))
        return ptrto(o)
    if short == 'reset':
        I.store(o, I.load(a[0]) if a else NULL)
        return VOID
    if short == 'release':
        I.store(o, NULL)
        return v
    if short == 'use_count':
        return X.top('use_count')
    return X.top('smart pointer ' + short)


def optional(I, e, short):
    o = recv(I, e)
    v = I.load(o)
    if short.startswith('operator bool') or short == 'has_value':
        return X.fld(v, 'has')
    if short in ('operator*', 'operator->'):
        return ptrto(ext(o, ('f', 'val')))
    if short == 'value':
        I.raise_('std::bad_optional_access', ['std::exception'], e.get('l'), not_(X.fld(v, 'has')))
        return ptrto(ext(o, ('f', 'val')))
    a = args_(I, e)
    if short == 'value_or':
        return ite(X.fld(v, 'has'), X.fld(v, 'val'), I.load(a[0]))
    if short == 'operator=':
        w = I.load(a[0])
        t = I_().base(e['pt'][0])
        if t.startswith('std::nullopt'):
            I.store(o, X.rec('std::optional', [('has', FALSE), ('val', NONE)]))
        elif t.startswith('std::optional'):
            I.store(o, w)
        else:
            I.store(o, X.rec('std::optional', [('has', TRUE), ('val', w)]))
        return ptrto(o)
    if short == 'reset':
        I.store(o, X.rec('std::optional', [('has', FALSE), ('val', NONE)]))
        return VOID
    return X.top('optional ' + short)


# ------------------------------------------------------------------ OGR
def newgeom(I, v, name='geom'):
    l = I.newloc(name, v, kind='heap')
    return ptrto(l)


def geomcall(I, name, vals):
    """fresh geometry computed by an OGR/GEOS operation"""
    c = I.mkcall(name, vals)
    return newgeom(I, cases(c, lambda q: q if q.op == 'top' else I.lf('o', q, ())), name)


def kindof(v):
    if v.op == 'rec':
        return v.a[0]
    return None


def obj_as(I, lv, cls):
    """the geometry at lv, viewed as a concrete OGR class when it is an unknown geometry"""
    v = I.load(lv)
    return v


COLL = ('OGRMultiPoint', 'OGRMultiLineString', 'OGRMultiPolygon', 'OGRPolygon', 'OGRLineString', 'OGRLinearRing')


def ogrstatic(I, e, n):
    short = n.rsplit('::', 1)[-1]
    a = args_(I, e)
    v = [I.load(x) for x in a]
    if short == 'createGeometry':
        if v[0].op == 'num':
            k = {1: 'OGRPoint', 2: 'OGRLineString', 3: 'OGRPolygon', 4: 'OGRMultiPoint', 5: 'OGRMultiLineString', 6: 'OGRMultiPolygon', 101: 'OGRLinearRing'}.get(int(v[0].a[0]))
            if k:
                return newgeom(I, I.default_value(k), k)
        return X.top('createGeometry')
    if short == 'destroyGeometry' or n.startswith('GEOSGeom_destroy') or n.startswith('GEOSBufferParams_destroy') or n.startswith('VSIFree') or n.startswith('CPLFree'):
        return VOID
    if n == 'GEOSBufferParams_create_r':
        return newgeom(I, X.rec('GEOSBufferParams', [('cap', NONE), ('join', NONE), ('single', NONE)]), 'bufparams')
    if n.startswith('GEOSBufferParams_set'):
        f = {'setEndCapStyle': 'cap', 'setJoinStyle': 'join', 'setSingleSided': 'single'}.get(n.split('_')[1], None)
        if f and v[1].op == 'ptr':
            I.store(ext((v[1].a[0], v[1].a[1]), ('f', f)), X.tonum(v[2]))
        return X.ONE
    if n == 'GEOSBufferWithParams_r':
        return geomcall(I, 'GEOSBuffer', [derefs(I, v[1]), derefs(I, v[2]), v[3]])
    if short == 'createFromGEOS':
        g = derefs(I, v[1])
        if g.op == 'rec' and g.a[0] == 'GEOS':
            return newgeom(I, X.fld(g, 'g'))
        return newgeom(I, g)
    if short == 'createFromWkt':
        vals = [derefs(I, v[0])] + [derefs(I, x) for x in v[1:2]]
        vals = [derefs(I, x) for x in vals]
        r = geomcall(I, 'createFromWkt', vals[:1])
        err = X.app('ogrerr', 'i', *[x for x in vals[:1]])
        if len(v) > 2 and v[2].op == 'ptr':
            I.store((v[2].a[0], v[2].a[1]), X.ite(X.eq(err, X.ZERO), r, X.NULL))
        return err
    return pure(I, e, None, a)


def ogrmethod(I, e, m):
    from .interp import OGRKIND, base, pointee
    o = recv(I, e)
    a = args_(I, e)
    g = I.load(o)
    k = kindof(g)
    v = [I.load(x) for x in a]

    def G():
        return ext(o, ('f', 'g'))

    def GL():
        return I.load(G())
    if m == 'clone':
        return newgeom(I, I.snap(g), 'clone')
    if m in ('getX', 'getY', 'getZ'):
        c = m[3].lower()
        if not v:
            if k == 'OGRPoint':
                return X.fld(g, c)
        elif k in ('OGRLineString', 'OGRLinearRing'):
            L = GL()
            I.oblige('bounds', e, or_(not_(X.lt(v[0], X.length(L))), X.lt(v[0], X.ZERO)), (L, v[0]))
            return X.fld(X.at(L, v[0]), c)
        return X.app('ogr.' + m, 'r', I.snap(g), *v)
    if m in ('setX', 'setY', 'setZ') and k == 'OGRPoint':
        I.store(ext(o, ('f', m[3].lower())), v[0])
        return VOID
    if m in ('getNumPoints', 'getNumGeometries') and k in COLL:
        return X.length(GL())
    if m == 'getNumInteriorRings' and k == 'OGRPolygon':
        n = X.length(GL())
        return ite(X.lt(n, X.ONE), X.ZERO, X.sub(n, X.ONE))
    if m == 'getPoint' and len(v) == 2 and k in COLL:
        L = GL()
        I.oblige('bounds', e, or_(not_(X.lt(v[0], X.length(L))), X.lt(v[0], X.ZERO)), (L, v[0]))
        if v[1].op == 'ptr':
            I.store((v[1].a[0], v[1].a[1]), X.at(L, v[0]))
        return VOID
    if m == 'setPoint' and k in COLL:
        if len(v) == 2:
            p = derefs(I, v[1])
        else:
            p = X.rec('OGRPoint', list(zip('xyz', v[1:] + [X.ZERO] * (4 - len(v)))))
        L = GL()
        n = X.length(L)
        inb = X.lt(v[0], n)
        if inb is TRUE:
            new = X.update(L, v[0], p)
        else:
            # past the end the line grows up to the index
            zero = X.rec('OGRPoint', [(c, X.ZERO) for c in 'xyz'])
            grown = X.concat(X.concat(L, X.fill(X.sub(v[0], n), zero)), X.single(p))
            new = ite(inb, X.update(L, v[0], p), grown)
        I.store(G(), new)
        return VOID
    if m == 'addPoint' and k in COLL:
        p = derefs(I, v[0]) if len(v) == 1 else X.rec('OGRPoint', list(zip('xyz', v + [X.ZERO] * (3 - len(v)))))
        I.store(G(), X.concat(GL(), X.single(p)))
        return VOID
    if m in ('addGeometry', 'addRing', 'addGeometryDirectly', 'addRingDirectly') and k in COLL:
        x = derefs(I, v[0])
        want = OGRKIND[k]
        x = cases(x, lambda q: I.retype(q, want) if q.op != 'rec' else q)
        if x.op == 'rec' and x.a[0] != want:
            x = X.rec(want, x.a[1])
        I.store(G(), X.concat(GL(), X.single(x)))
        return X.ZERO
    if m in ('getGeometryRef', 'getExteriorRing', 'getInteriorRing') and k in COLL:
        L = GL()
        i = X.ZERO if m == 'getExteriorRing' else X.add(v[0], X.ONE) if m == 'getInteriorRing' else v[0]
        n = X.length(L)
        bad = or_(not_(X.lt(i, n)), X.lt(i, X.ZERO) if m != 'getInteriorRing' else X.lt(v[0], X.ZERO))
        I.oblige('nullref', e, bad, (L, i))
        return ptrto(ext(G(), ('i', i)))
    if m == 'removeGeometry' and k in COLL:
        L = GL()
        i = v[0]
        neg = X.lt(i, X.ZERO)
        I.store(G(), ite(neg, X.EMPTY, X.concat(X.slice_(L, X.ZERO, i), X.slice_(L, X.add(i, X.ONE), X.length(L)))))
        return X.ZERO
    if m == 'reversePoints' and k in COLL:
        I.store(G(), X.rev(GL()))
        return VOID
    if m == 'IsEmpty':
        if k in COLL:
            # well-formedness assumption: collections hold no empty members
            return X.tonum(X.eq(X.length(GL()), X.ZERO))
        return X.tonum(X.asbool(X.app('ogr.IsEmpty', 'b', I.snap(g))))
    if m == 'getGeometryType':
        return cases(g, lambda q: num(GTYPE[q.a[0]]) if q.op == 'rec' and q.a[0] in GTYPE else X.app('gtype', 'i', q))
    if m == 'getEnvelope':
        if v[0].op == 'ptr':
            s = I.snap(g)
            I.store((v[0].a[0], v[0].a[1]), X.rec('OGREnvelope', [(f, X.app('env.' + f, 'r', s)) for f in ('MinX', 'MaxX', 'MinY', 'MaxY')]))
        return VOID
    if m in ('get_Length', 'get_Area', 'Length', 'Area'):
        return X.app('ogr.' + m, 'r', I.snap(g))
    if m in ('Intersects', 'Disjoint', 'Touches', 'Within', 'Crosses', 'Contains', 'Equals', 'Overlaps'):
        h = derefs(I, v[0])
        if m == 'Contains':
            return X.tonum(X.asbool(X.app('ogr.Within', 'b', h, I.snap(g))))
        ps = [I.snap(g), h]
        if m in SYMMETRIC:
            if ps[0] is ps[1] and m == 'Equals':
                return X.ONE
            if m == 'Equals' and all(q.op == 'rec' and q.a[0] == 'OGRPoint' for q in ps):
                # two points are equal when their coordinates are
                return X.tonum(X.and_(*[X.eq(dict(ps[0].a[1])[c], dict(ps[1].a[1])[c]) for c in 'xyz']))
            ps.sort(key=lambda t: t.id)
        return X.tonum(I.symcall('bool', I.mkcall('ogr.' + m, ps)))
    if m == 'Distance':
        ps = sorted([I.snap(g), derefs(I, v[0])], key=lambda t: t.id)
        if all(q.op == 'rec' and q.a[0] == 'OGRPoint' for q in ps):
            # between two points: the distance in the plane
            d = [X.add(dict(ps[0].a[1])[c], X.neg(dict(ps[1].a[1])[c])) for c in 'xy']
            return X.fn1('sqrt', X.add(X.mul(d[0], d[0]), X.mul(d[1], d[1])))
        return I.symcall('double', I.mkcall('ogr.Distance', ps))
    if m in ('Intersection', 'Difference', 'Union', 'SymDifference', 'Buffer', 'ConvexHull', 'SimplifyPreserveTopology',
             'Simplify', 'UnionCascaded', 'Boundary', 'getCurveGeometry', 'Polygonize'):
        ps = [I.snap(g)] + [derefs(I, x) for x in v]
        if m in ('Intersection', 'Union', 'SymDifference'):
            ps.sort(key=lambda t: t.id)
        return geomcall(I, 'ogr.' + m, ps)
    if m == 'hasCurveGeometry':
        return X.ZERO
    if m == 'getSpatialReference':
        # coordinates carry no reference of their own here
        return X.own(X.sym('srs', 'o')) if False else NULL
    if m == 'assignSpatialReference':
        return VOID
    if m in ('exportToWkt', 'exportToJson', 'exportToGML', 'exportToKML'):
        s = mk('str', ('a', X.app('ogr.' + m, 's', I.snap(g)))) if g.op != 'ite' else X.top('wkt')
        if v and v[0].op == 'ptr' and m == 'exportToWkt':
            I.store((v[0].a[0], v[0].a[1]), s)
            return X.ZERO
        return s
    if m == 'importFromWkt':
        s = derefs(I, v[0])
        # text carries 15 digits: reading it back is not the identity
        I.store(o, I.symval(k, I.mkcall('ogr.importFromWkt', [s])) if k else X.top('importFromWkt'))
        return X.app('ogrerr', 'i', s)
    if m == 'exportToGEOS':
        return newgeom(I, X.rec('GEOS', [('g', I.snap(g))]), 'geos')
    if m == 'transform':
        ct = derefs(I, v[0])
        if k:
            I.store(o, I.symval(k, I.mkcall('ogr.transform', [I.snap(g), ct])))
        return X.app('ogrerr', 'i', I.snap(g), ct)
    if m in ('toPolygon', 'toMultiPolygon', 'toMultiLineString', 'toLineString', 'toPoint', 'toMultiPoint'):
        kind = 'OGR' + m[2:]
        if k is None:
            I.store(o, I.retype(g, kind))
        return ptrto(o)
    if m in ('closeRings',):
        I.store(o, I.symval(k, I.mkcall('ogr.closeRings', [I.snap(g)])) if k else X.top(m))
        return VOID
    if m in ('isClockwise', 'get_IsClosed', 'IsValid', 'IsSimple', 'IsRing'):
        return X.tonum(I.symcall('bool', I.mkcall('ogr.' + m, [I.snap(g)])))
    if m in ('empty',):
        if k in COLL:
            I.store(G(), X.EMPTY)
            return VOID
    return pure(I, e, o, a)
