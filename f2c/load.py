"""Builds the extractor when needed and extracts the type-resolved program of /repo."""
import glob
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('F2C_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
EXC = os.path.join(BUILD, 'extract')
FLAGS = ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-DTINYXML2_IMPORT', '-D_FILE_OFFSET_BITS=64',
         '-I%s/include' % REPO, '-I%s/src' % REPO, '-I' + os.path.join(HERE, 'extract'),
         '-isystem', '/usr/include/gdal', '-isystem', '/usr/include/geos', '-isystem', '/usr/include/eigen3',
         '-isystem', os.path.join(HERE, 'stubs'), '-std=c++17', '-w', '-fno-access-control']


class BrokenAnalysis(Exception):
    pass


def sources():
    r = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    return r


def headers():
    return sorted(glob.glob(REPO + '/include/**/*.h*', recursive=True))


def build_extractor():
    src = os.path.join(HERE, 'extract', 'extract.cpp')
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    st = EXC + '.sha'
    if os.path.exists(EXC) and os.path.exists(st) and open(st).read() == h:
        return
    tmp = EXC + '.%d' % os.getpid()
    subprocess.run(['clang++', '-O0', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                    '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
    os.replace(tmp, EXC)
    open(st, 'w').write(h)


def digest():
    h = hashlib.sha256()
    for f in sources() + headers() + sorted(glob.glob(HERE + '/extract/*') + glob.glob(HERE + '/stubs/**/*.*', recursive=True)):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    return h.hexdigest()


def run_extract(path, extra=()):
    p = subprocess.run([EXC, REPO, path, '--'] + FLAGS + list(extra), capture_output=True)
    if p.returncode != 0:
        return None, p.stderr.decode(errors='replace')
    return json.loads(p.stdout), p.stderr.decode(errors='replace')


def extract():
    """(json, info)"""
    build_extractor()
    d = digest()
    cache = os.path.join(BUILD, 'prog-%s.json' % d[:24])
    if os.path.exists(cache):
        try:
            return json.load(open(cache))
        except ValueError:
            pass
    srcs = sources()
    if len(srcs) < 40:
        raise BrokenAnalysis('only %d sources found under %s' % (len(srcs), REPO))
    tail = ['extract/instantiate.cpp']
    uni = os.path.join(BUILD, 'unity-%d.cpp' % os.getpid())
    with open(uni, 'w') as f:
        for s in srcs:
            f.write('#include "%s"\n' % s)
        for s in tail:
            f.write('#include "%s"\n' % os.path.join(HERE, s))
    js, err = run_extract(uni)
    os.unlink(uni)
    mode = 'unity'
    if js is None:
        # the sources do not build as one unit: take them one at a time
        mode = 'separate'
        js = None
        units = srcs + [os.path.join(HERE, s) for s in tail]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(run_extract, units))
        for u, (j, er) in zip(units, rs):
            if j is None:
                raise BrokenAnalysis('cannot parse %s\n%s' % (u, er[-3000:]))
            js = merge(js, j, u)
    # the variant of the brute force generator compiled with parallel algorithms
    bf = [s for s in srcs if s.endswith('swath_generator/brute_force.cpp')]
    par = []
    if bf:
        j, er = run_extract(bf[0], ['-DALLOW_PARALLELIZATION'])
        if j is not None:
            par = [f for f in j['functions'] if f.get('file', '').endswith('brute_force.cpp')]
    js['parallel_variant'] = par
    js['info'] = {'mode': mode, 'units': len(srcs), 'headers': len(headers()), 'digest': d,
                  'functions': len(js['functions']), 'records': len(js['records']),
                  'maxd': _dbase[0] if mode == 'separate' else maxdecl(js)}
    for old in glob.glob(BUILD + '/prog-*.json') + glob.glob(BUILD + '/spec-*.json'):
        if os.path.getmtime(old) < __import__('time').time() - 3600:
            os.unlink(old)
    tmp = cache + '.%d' % os.getpid()
    json.dump(js, open(tmp, 'w'))
    os.replace(tmp, cache)
    return js


_dbase = [0]


def merge(a, b, u):
    """union of two extractions (declaration ids are made disjoint)"""
    off = _dbase[0]
    mx = 0

    def fix(n):
        nonlocal mx
        if isinstance(n, dict):
            if isinstance(n.get('d'), int):
                mx = max(mx, n['d'])
                n['d'] += off
            for v in n.values():
                fix(v)
        elif isinstance(n, list):
            for v in n:
                fix(v)
    fix(b)
    _dbase[0] = off + mx + 1
    if a is None:
        return b
    for key, idk in (('functions', 'fn'), ('records', 'n'), ('enums', 'n'), ('vars', 'n')):
        have = {x.get(idk): x for x in a[key]}
        for x in b[key]:
            o = have.get(x.get(idk))
            if o is None:
                a[key].append(x)
                have[x.get(idk)] = x
            elif key == 'functions' and x.get('body') and not o.get('body'):
                o.clear()
                o.update(x)
    return a


def maxdecl(n):
    m = 0
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            d = x.get('d')
            if isinstance(d, int) and d > m:
                m = d
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return m + 1


def extract_spec(path):
    """functions of a reference specification, written against the public interface"""
    h = hashlib.sha256((digest() + path).encode() + open(path, 'rb').read())
    for x in sorted(glob.glob(HERE + '/specs/*.h')):
        h.update(open(x, 'rb').read())
    cache = os.path.join(BUILD, 'spec-%s.json' % h.hexdigest()[:24])
    if os.path.exists(cache):
        try:
            return json.load(open(cache))
        except ValueError:
            pass
    j, er = run_extract(path)
    if j is None:
        raise BrokenAnalysis('the reference specification %s does not type-check against the current headers\n%s' % (path, er[-3000:]))
    # the repository's own code comes from the repository's extraction
    j['info'] = {'maxd': maxdecl(j)}
    tmp = cache + '.%d' % os.getpid()
    json.dump(j, open(tmp, 'w'))
    os.replace(tmp, cache)
    return j


def program(specs=()):
    from . import interp
    sys.setrecursionlimit(20000)
    js = extract()
    _dbase[0] = js['info']['maxd']
    for s in specs:
        js = merge(js, extract_spec(os.path.join(HERE, 'specs', s)), s)
    return interp.Program(js)
