"""Footprint of a method on its object: which fields it reads and which it may write.

A flow-insensitive, transitive effect analysis over the type-resolved program.  Anything it
cannot follow (the object itself escapes, a virtual call, an unknown construct) makes the
footprint unbounded (None)."""

_memo = {}


def isconst(t):
    t = (t or '').strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t.startswith('const ') or t.endswith(' const')


def mutref(t):
    t = (t or '').strip()
    if t.endswith('&&'):
        return True
    if t.endswith('&'):
        return not isconst(t)
    if t.endswith('*'):
        return not t.startswith('const ')
    return False


class Escape(Exception):
    pass


def footprint(prog, key):
    k = (id(prog), key)
    if k not in _memo:
        _memo[k] = (frozenset(), frozenset())   # recursion: least fixpoint start
        for _ in range(4):
            try:
                r = _foot(prog, key)
            except Escape:
                r = None
            if r == _memo[k]:
                break
            _memo[k] = r
    return _memo[k]


def _foot(prog, key):
    f = prog.fns.get(key)
    if not f or not f.get('body'):
        raise Escape(key)
    reads, writes = set(), set()

    def field(n):
        """name of the field of this that the lvalue n lies in, or None"""
        while n['k'] in ('mem', 'idx', 'up', 'cast'):
            b = n.get('b') if n['k'] == 'mem' else n.get('a') if n['k'] == 'idx' else n.get('e')
            if n['k'] == 'mem' and isinstance(b, dict) and strip(b)['k'] == 'this':
                return n['f']
            if not isinstance(b, dict):
                return None
            n = b
        return None

    def strip(n):
        while n['k'] in ('cast', 'up') or n['k'] == 'un' and n.get('op') == '*':
            n = n['e']
        return n

    def go(n, ctx):
        if isinstance(n, list):
            for x in n:
                go(x, ctx)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'this':
            raise Escape('this')
        if k == 'mem':
            b = n['b']
            if strip(b)['k'] == 'this':
                reads.add(n['f'])
                if ctx == 'w':
                    writes.add(n['f'])
                return
            go(b, ctx if not n.get('arrow') else 'w' if ctx == 'w' else 'r')
            return
        if k == 'call':
            o = n.get('obj')
            if o is not None:
                if strip(o)['k'] == 'this':
                    if prog.overriders(n['fn']):
                        raise Escape('virtual')
                    r = footprint(prog, n['fn'])
                    if r is None:
                        raise Escape(n['fn'])
                    reads.update(r[0])
                    writes.update(r[1])
                else:
                    go(o, 'r' if n.get('mconst') else 'w')
            args(n)
            return
        if k == 'ctor':
            args(n)
            return
        if k == 'asg':
            go(n['a'], 'w')
            go(n['b'], 'r')
            return
        if k == 'un':
            go(n['e'], 'w' if n.get('op') in ('++', '--', '&', 'post++', 'post--', 'pre++', 'pre--') or n.get('op') not in ('-', '+', '!', '~', '*') else ctx)
            return
        if k in ('cast', 'up'):
            go(n['e'], ctx)
            return
        if k == 'cond':
            go(n['c'], 'r')
            go(n['a'], ctx)
            go(n['b'], ctx)
            return
        if k == 'idx':
            go(n['a'], ctx)
            go(n['b'], 'r')
            return
        if k == 'bin':
            go(n['a'], 'r')
            go(n['b'], 'r')
            return
        if k == 'decl':
            for v in n['vars']:
                if v.get('init') is not None:
                    go(v['init'], 'w' if mutref(v['v'].get('t')) else 'r')
            return
        if k == 'rfor':
            v = n['v']
            t = v.get('t') if isinstance(v, dict) else ''
            go(n['range'], 'w' if mutref(t) else 'r')
            go(n['body'], 'r')
            return
        if k == 'return':
            if n.get('e') is not None and not (n['e']['k'] == 'un' and n['e'].get('op') == '*' and n['e']['e']['k'] == 'this' and (f.get('rt') or '').endswith('&')):
                go(n['e'], 'w' if mutref(f.get('rt')) else 'r')
            return
        if k in ('unknown', 'delete', 'new'):
            for x in n.values():
                go(x, 'w')
            return
        for kk, x in n.items():
            if isinstance(x, (dict, list)):
                go(x, 'r')

    def args(n):
        pt = n.get('pt') or []
        for i, a in enumerate(n.get('a') or []):
            t = pt[i] if i < len(pt) else ''
            go(a, 'w' if mutref(t) or i >= len(pt) else 'r')

    go(f['body'], 'r')
    for i in f.get('inits') or []:
        go(i, 'r')
    return frozenset(reads), frozenset(writes)
