"""Findings, known findings and evidence."""
import json
import os
import time
from . import load, rand

HERE = load.HERE


def known():
    p = os.path.join(HERE, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


class Context:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = []      # dict(key, where, rule, what, detail)
        self.cov = {}
        self.assume = []
        self.explain = []
        self.gaps = []
        self.seed = int(os.environ.get('VERIF_SEED') or 1)

    @property
    def deep(self):
        return self.tier == 'thorough'

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def violation(self, key, where, rule, what, detail=None):
        self.viol.append({'key': key, 'where': where, 'rule': rule, 'what': what, 'detail': detail})

    def gap(self, what):
        self.gaps.append(what)

    def need(self, name, n):
        """vanished anchors are an error, not a pass"""
        if self.cov.get(name, 0) < n:
            raise load.BrokenAnalysis('only %d %s analysed, at least %d expected' % (self.cov.get(name, 0), name, n))

    def finish(self):
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        kn = [k for k in known() if k.get('property') == self.pid and k.get('status') == 'known']
        new, old = [], []
        seen = set()
        for v in self.viol:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            hit = [k for k in kn if k['key'] == v['key']]
            (old if hit else new).append((v, hit[0] if hit else None))
        replay = os.path.join(HERE, 'evidence', self.pid + '.replay.json')
        for v, k in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if new:
            json.dump([v for v, _ in new], open(replay, 'w'), indent=1, default=str)
            for v, _ in new:
                print('%s: %s' % (v['where'], v['rule']))
                print('    ' + v['what'])
                print('VIOLATION property=%s replay=%s' % (self.pid, replay))
        elif os.path.exists(replay):
            os.unlink(replay)
        cov = {'explanation': ' '.join(self.explain), 'counts': self.cov, 'not_decided': self.gaps[:80]}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        if old:
            ev['known_findings'] = [k['what'] for _, k in old]
        json.dump(ev, open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w'), indent=1)
        print('%s: %s; %d violation(s), %d known, %d not decided, %.1fs' % (
            self.pid, ', '.join('%s %s' % (v, k) for k, v in sorted(self.cov.items())), len(new), len(old), len(self.gaps), time.time() - self.t0))
        return 1 if new else 0


COMMON = [
    'GDAL/OGR, GEOS, the C++ library and the other external libraries behave as their interfaces document; their calls are modelled or uninterpreted.',
    'Arithmetic is read over exact numbers: floating-point rounding and integer overflow are outside the rules.',
    'Geometry collections hold no empty members.',
]


def specs(ctx, files, mins=None):
    """compare every annotated reference function of the files with the repository"""
    from . import equiv
    prog = load.program(files)
    jobs = []
    for fn in files:
        for pr in equiv.parse(os.path.join(HERE, 'specs', fn)):
            keys = equiv.pick(prog, pr)
            sk = equiv.specfn(prog, pr.spec)
            if not keys:
                raise load.BrokenAnalysis('no function matches %s (%s:%d)' % (pr.pattern, fn, pr.line))
            if len(keys) > 1 and not pr.opts.get('each'):
                raise load.BrokenAnalysis('%d functions match %s: %s' % (len(keys), pr.pattern, keys[:3]))
            if not sk:
                raise load.BrokenAnalysis('reference function %s missing (%s:%d)' % (pr.spec, fn, pr.line))
            for k in keys:
                jobs.append((pr, k, sk[0]))
    run_jobs(ctx, prog, jobs)
    for a in COMMON:
        if a not in ctx.assume:
            ctx.assume.append(a)
    return prog


def _job(args):
    from . import equiv, terms as X
    prog, (pr, k, sk), deep, seed = args
    t = time.time()
    try:
        st, info = equiv.compare(prog, k, sk, pr.opts, n=400 if deep else 160, seed=seed, tlimit=240 if deep else 120,
                                 rlimit=60 if deep else 12, maxlen=6 if deep else 4)
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        st, info = 'unknown', {'why': 'internal: %r at %s:%d' % (ex, os.path.basename(tb.filename), tb.lineno)}
    out = {'status': st, 'why': info.get('why'), 'tried': info.get('tried'), 't': time.time() - t}
    m = info.get('mismatch')
    if m:
        if m.what == 'outcome':
            out['mm'] = ('outcome', ' '.join(map(str, m.got)), ' '.join(map(str, m.want)), m.assign)
        else:
            p, x, y = equiv.firstdiff(m.got, m.want, m.what)
            out['mm'] = (p, rand.pretty(x)[:400], rand.pretty(y)[:400], m.assign)
    return out


_G = {}


def _fork_job(i):
    return _job((_G['prog'], _G['jobs'][i], _G['deep'], _G['seed']))


def run_jobs(ctx, prog, jobs):
    import multiprocessing as mp
    _G.update(prog=prog, jobs=jobs, deep=ctx.deep, seed=ctx.seed)
    n = min(8, os.cpu_count() or 1, max(1, len(jobs)))
    c = mp.get_context('fork')
    with c.Pool(n, maxtasksperchild=20) as pool:
        res = pool.map(_fork_job, range(len(jobs)), chunksize=1)
    decided = 0
    for (pr, k, sk), r in zip(jobs, res):
        f = prog.fns[k]
        ctx.count('functions compared with their reference')
        if os.environ.get('F2C_VERBOSE'):
            print('   %-10s %5.1fs %s <-> %s %s' % (r['status'], r['t'], k[:110], sk.split('(')[0], r.get('why') or r.get('tried') or ''))
        if r['status'] == 'equal':
            decided += 1
            ctx.count('proved equal by value numbering')
        elif r['status'] == 'same':
            decided += 1
            ctx.count('not separated by random interpretation (not proved)')
        elif r['status'] == 'separated':
            decided += 1
            p, got, want, asg = r['mm']
            ctx.violation('%s|%s' % (short(k), sk.split('(')[0].replace('spec::', '')), '%s:%s %s' % (f.get('file'), f.get('l'), short(k)),
                          'value numbering: summary differs from its reference %s' % sk.split('(')[0],
                          '%s is %s, the property requires %s' % (p, got, want), {'inputs': asg, 'component': p, 'got': got, 'required': want, 'function': k, 'reference': sk})
        else:
            ctx.count('not decided')
            ctx.gap('%s: %s' % (short(k), r['why']))
    if jobs and decided == 0:
        raise load.BrokenAnalysis('none of %d functions could be summarised' % len(jobs))
    ctx.cov['source files read'] = prog.js['info']['units'] + prog.js['info']['headers']
    ctx.cov['functions in the program'] = prog.js['info']['functions']


def short(k):
    return k.split('(')[0].replace('f2c::', '') if len(k) > 100 else k.replace('f2c::types::', '').replace('f2c::', '')
