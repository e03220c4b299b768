"""Bounded symbolic execution of the real sources with CBMC.

A harness (/verif/cb/*.c) gives its inputs symbolic values (nd(lo,hi)), calls functions of the current /repo tree and
CHECKs the property.  goto-cc translates the harness together with the real source files; CBMC decides every assertion,
including unwinding assertions, for all values at once.  A counterexample is replayed natively (gcc, address and undefined
behaviour sanitizers, the real GMP unless the harness says otherwise) before it is reported.
"""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from . import common
from .common import REPO, run, Inconclusive
CB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cb')
CPP = ['-DISL_USING_GMP_VAL=1']


class H:
    def __init__(self, name, src, sources, defs=(), unwind=8, unwindset=(), kind='CLOOG_INT_GMP', nd=64, timeout=300, stub=True,
                 flags=(), own=False, functions=(), bounds='', native=True, native_stub=False, extra=(), optional=False, remove=(),
                 nolink=(), solver=None, native_extra=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


def includes(kind, stub):
    inc = common.scratch() + '/cbinc_' + kind
    if not os.path.exists(inc + '/cloog/int.h'):
        common.gen_headers(inc, kind)
    r = ['-I', CB]
    if stub:
        r += ['-I', CB + '/stub']
    return r + ['-I', inc, '-I', REPO + '/include', '-I', REPO, '-I', REPO + '/source']


def prepare():
    for k in ('CLOOG_INT_GMP', 'CLOOG_INT_INT', 'CLOOG_INT_LONG', 'CLOOG_INT_LONG_LONG'):
        includes(k, False)


def build(h, d):
    gb = '%s/%s.gb' % (d, h.name)
    cmd = ['goto-cc', '-std=gnu99', '-w', '-o', gb, '--function', 'harness', '-DVCBMC', '-DVH_ND=%d' % h.nd, *CPP, *h.defs]
    if h.own:
        cmd.append('-DSTUB_OWN')
    cmd += includes(h.kind, h.stub)
    cmd += [CB + '/' + h.src] + [s if s.startswith('/') else REPO + '/source/' + s for s in h.sources] + [x if x.startswith('/') else CB + '/' + x for x in h.extra]
    rc, so, se = run(cmd, timeout=120)
    if rc:
        return None, (so + se)[-1500:]
    if h.remove:
        rc, so, se = run(['goto-instrument', gb, gb + '2'] + [x for f in h.remove for x in ('--remove-function-body', f)], timeout=120)
        if rc:
            return None, (so + se)[-1500:]
        gb += '2'
    return gb, ''


def num(x):
    return int(x, 0) if isinstance(x, str) and re.match(r'-?0x', x) else int(x)


def solve(h, gb, memgb=12, only=None):
    cmd = ['cbmc', gb, '--function', 'harness', '--unwind', str(h.unwind), '--unwinding-assertions', '--no-malloc-may-fail', '--drop-unused-functions',
           '--json-ui', '--verbosity', '8', *h.flags]
    cmd += ['--slice-formula'] if not only else ['--trace'] + [x for o in only for x in ('--property', o)]
    if h.unwindset:
        cmd += ['--unwindset', ','.join(h.unwindset)]
    if h.solver:
        cmd += h.solver
    t = time.time()
    rc, so, se = run(cmd, timeout=h.timeout, memgb=memgb)
    dt = time.time() - t
    try:
        js = json.loads(so)
    except Exception:
        return dict(status='unknown', why='no answer (rc %s, %.0f s) %s' % (rc, dt, (so[-300:] + se[-300:])), time=dt)
    res = [x['result'] for x in js if 'result' in x]
    msg = ' '.join(x.get('messageText', '') for x in js if 'messageText' in x)
    m = re.search(r'(\d+) variables, (\d+) clauses', msg)
    sz = m.group(0) if m else ''
    m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', msg)
    vcc = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if not res:
        err = [x.get('messageText', '') for x in js if x.get('messageType') == 'ERROR']
        return dict(status='unknown', why='no result: ' + ' '.join(err)[:400], time=dt)
    bad, wit, unwind, props, loops, undecided = [], False, [], 0, [], ''
    for p in res[0]:
        props += 1
        d = p.get('description', '')
        if p['status'] == 'SUCCESS':
            continue
        if p['status'] != 'FAILURE':
            undecided = undecided or '%s: %s' % (p['property'], p['status'])     # what follows a failed pointer check
            continue
        if d.startswith('WITNESS'):
            wit = True
            continue
        if 'unwind' in p['property'] or 'unwinding assertion' in d or 'recursion' in d:
            unwind.append(p['property'])
        nd = {}
        for s in p.get('trace', []):
            if s.get('stepType') == 'assignment':
                m = re.match(r'ND\[(\d+)l*\]$', s.get('lhs', ''))
                if m:
                    nd[int(m.group(1))] = s['value'].get('data')
        n = max(nd) + 1 if nd else 0
        loc = p.get('sourceLocation', {})
        (loops if p['property'] in unwind else bad).append(dict(prop=p['property'], desc=d, where='%s:%s' % (loc.get('file', '?').replace(REPO + '/', ''), loc.get('line', '?')),
                        nd=[num(nd.get(k, 0)) for k in range(n)]))
    if undecided and not bad and not unwind:
        return dict(status='unknown', why=undecided, time=dt)
    if (bad or unwind) and not only:
        # once more for the values (the inputs are sliced away above)
        todo = []
        for b in bad:
            if b['desc'] not in [x['desc'] for x in todo]:
                todo.append(b)
        r = solve(h, gb, memgb, only=[b['prop'] for b in todo[:4]] + unwind[:2])
        if r.get('bad') or r.get('loops'):
            bad, loops = r['bad'], r['loops']
        dt += r['time']
    nobody = [b for b in bad if 'no body for callee' in b['desc']]
    if nobody and not only:
        return dict(status='unknown', why='the code now calls functions that the harness does not model: ' + ', '.join(b['desc'] for b in nobody)[:300], time=dt)
    st = 'fail' if bad else 'unknown' if unwind or not wit else 'ok'
    why = '' if st != 'unknown' else ('bound too small: ' + ' '.join(unwind[:5]) if unwind else 'vacuous: the end of the harness is not reachable')
    return dict(status=st, bad=bad, loops=loops, unwind=unwind, witness=wit, props=props, vcc=vcc, size=sz, time=dt, why=why)


def native(h, d, san=True):
    """The harness against the real code (and real GMP), for replays."""
    exe = '%s/%s.nat' % (d, h.name)
    if os.path.exists(exe):
        return exe, ''
    cmd = ['gcc', '-std=gnu99', '-w', '-g', '-O0', '-o', exe, *CPP, *h.defs]
    if san:
        cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=nonnull-attribute']
    cmd += includes(h.kind, h.native_stub)
    cmd += [CB + '/' + h.src] + [s if s.startswith('/') else REPO + '/source/' + s for s in h.sources] + [x if x.startswith('/') else CB + '/' + x for x in h.extra]
    cmd += [x if x.startswith(('/', '-')) else CB + '/' + x for x in h.native_extra]
    if not h.native_stub:
        cmd += ['-lgmp']
    rc, so, se = run(cmd, timeout=120)
    return (exe, '') if rc == 0 else (None, (so + se)[-1500:])


def replay(h, d, nd):
    exe, err = native(h, d)
    if not exe:
        return None, 'replay does not build: ' + err
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=98', UBSAN_OPTIONS='halt_on_error=1:exitcode=97')
    rc, so, se = run([exe] + [str(x) for x in nd], timeout=20, env=env)
    if 'pc 0x000000000000' in se:       # a function the harness does not define
        return 0, 'the replay calls a function that is not part of the harness'
    return rc, (so[-1500:] + '\n' + se[-1500:])


def check(ck, hs, jobs=4, budget=None):
    """Decide all harnesses; report what reproduces."""
    t0 = time.time()
    d = common.scratch() + '/cb'
    os.makedirs(d, exist_ok=True)
    prepare()
    cov = ck.cov.setdefault('harnesses', [])

    def one(h):
        if budget and time.time() - t0 > budget:
            return h, dict(status='unknown', why='not started: time budget used', time=0)
        gb, err = build(h, d)
        if not gb:
            return h, dict(status='unknown', why='does not compile: ' + err, time=0, nobuild=True)
        return h, solve(h, gb)
    with ThreadPoolExecutor(jobs) as ex:
        out = list(ex.map(one, hs))
    tot = dict(n_harnesses=0, decided=0, assertions=0, vccs=0, solver_s=0.0)
    for h, r in out:
        tot['n_harnesses'] += 1
        tot['solver_s'] += r.get('time', 0)
        tot['assertions'] += r.get('props', 0)
        tot['vccs'] += r.get('vcc', (0, 0))[0]
        cov.append(dict(harness=h.name, functions=list(h.functions), bounds=h.bounds, status=r['status'], assertions=r.get('props', 0),
                        vccs=r.get('vcc', (0, 0))[0], formula=r.get('size', ''), seconds=round(r.get('time', 0), 1), unwind=h.unwind,
                        why=r.get('why', '')))
        if r['status'] == 'ok':
            tot['decided'] += 1
        for b in r.get('loops', [])[:2]:
            rc, o = replay(h, d, b['nd'])
            if rc is None and not o.startswith('replay does not build'):
                ck.violation('%s does not terminate' % h.name, '%s: %s at %s: more iterations than any value in the bounds allows; symbolic inputs %s; '
                             'the native replay does not end' % (h.name, b['desc'], b['where'], b['nd'][:80]),
                             files={'harness': open(CB + '/' + h.src).read(), 'inputs': ' '.join(map(str, b['nd']))})
        if r['status'] == 'ok':
            pass
        elif r['status'] == 'unknown':
            if not (h.optional and r.get('nobuild')):
                ck.note_inconclusive('%s: %s' % (h.name, r['why'][:600]))
        else:
            tot['decided'] += 1
            done = set()
            for b in r['bad']:
                key = '%s %s' % (h.name, b['desc'])
                if key in done:
                    continue
                done.add(key)
                rc, o = replay(h, d, b['nd'])
                if rc in (None, 0, 77) and not (rc is None and not o.startswith('replay does not')):
                    ck.note_inconclusive('%s: counterexample to "%s" (%s) did not reproduce natively (rc %s) %s; values %s' % (
                        h.name, b['desc'], b['where'], rc, (o or '')[-200:], b['nd'][:80]))
                    continue
                ck.violation(key, '%s: %s at %s; symbolic inputs %s; native replay exits %s: %s' % (
                    h.name, b['desc'], b['where'], b['nd'][:80], rc, o.strip()[-400:]),
                    files={'harness': open(CB + '/' + h.src).read(), 'inputs': ' '.join(map(str, b['nd']))})
    c = ck.cov
    for k, v in tot.items():
        c[k] = round(c.get(k, 0) + v, 2)
    return out
