"""Runs a function of the program on symbolic inputs and returns its canonical outcome."""
from . import interp as IP
from . import terms as X
from .terms import T, TRUE, FALSE, NULL, VOID, NONE, mk
from .interp import base, isref, isptr, isconst


class Result:
    pass


def fresh(I, t, name, cls=None):
    """a place holding an unknown value of type t"""
    b = base(t)
    if cls:
        b = cls
    v = I.symval(b, ('n', name))
    l = I.newloc(name, v, b)
    return l


def run(prog, key, this=None, args=None, cls=None, opaque=None, setup=None, names=None):
    """outcome of calling `key` on unknown objects.  args: None for unknown values, a term,
    or a function of the interpreter giving a place"""
    f = prog.fns.get(key)
    if f is None:
        raise KeyError(key)
    I = IP.Interp(prog, opaque)
    IP.INTERP[0] = I
    r = Result()
    r.I = I
    r.f = f
    this_lv = None
    isctor = f.get('kind') == 'ctor'
    if f.get('kind') in ('method', 'ctor', 'dtor', 'conv') or f.get('cls'):
        if not f.get('mstatic'):
            this_lv = this(I) if callable(this) else fresh(I, (cls or f['cls']), 'self')
    alv = []
    for i, p in enumerate(f['params']):
        a = args[i] if args is not None and i < len(args) else None
        nm = names[i] if names else 'a%d' % i
        if callable(a):
            alv.append(a(I))
        elif isinstance(a, T):
            alv.append(I.newloc(nm, a, base(p['t'])))
        else:
            alv.append(fresh(I, p['t'], nm))
    if setup:
        setup(I, this_lv, alv)
    r.this0 = I.snap(I.load(this_lv)) if this_lv else None
    r.args0 = [I.snap(I.load(a)) for a in alv]
    if isctor:
        I.construct(cls or f['cls'], alv, this_lv, key)
        ret = VOID
    else:
        ret = I.invoke(f, this_lv, alv)
    if isref(f['rt']) and ret.op in ('ptr', 'ite'):
        r.retref = ret
        ret = deref(I, ret)
    r.ret = I.snap(ret)
    r.this = I.snap(I.load(this_lv)) if this_lv else None
    r.args = [I.snap(I.load(a)) for a in alv]
    r.thislv, r.arglv = this_lv, alv
    r.returns = I.st.pc
    r.throws = I.throws
    r.oblig = I.oblig
    return r


def deref(I, v):
    if v.op == 'ptr':
        return I.load((v.a[0], v.a[1]))
    if v.op == 'ite':
        return X.ite(mk('ite', v.a[0], TRUE, FALSE), deref(I, v.a[1]), deref(I, v.a[2]))
    return v
