"""Shared plumbing: builds of /repo's current tree, evidence, verdicts."""
import os, sys, json, time, shutil, subprocess, tempfile, atexit, re, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = os.cpu_count() or 4
_scratch = None


def scratch():
    """Per-process scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='clverif.')
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


class Inconclusive(Exception):
    pass


def run(cmd, timeout=None, cwd=None, stdin=None, env=None, memgb=None):
    """Run a command; returns (rc, stdout, stderr); rc None on timeout."""
    pre = None
    if memgb:
        import resource

        def pre():
            lim = int(memgb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=cwd, input=stdin, env=env,
                           preexec_fn=pre, text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        def s(x):
            if x is None:
                return ''
            return x if isinstance(x, str) else x.decode('utf8', 'replace')
        return None, s(e.stdout), s(e.stderr)


# ---------------------------------------------------------------- building --

def repo_sources():
    src = sorted(glob.glob(REPO + '/source/*.c'))
    src += sorted(glob.glob(REPO + '/source/isl/*.c'))
    return [s for s in src if os.path.basename(s) != 'mp_get_memory_functions.c']


def gen_headers(dst, intkind='CLOOG_INT_GMP'):
    """Regenerate the configured headers from the .in templates of /repo."""
    os.makedirs(dst + '/cloog/isl', exist_ok=True)
    t = open(REPO + '/include/cloog/int.h.in').read()
    t = re.sub(r'@CLOOG_INT_CONFIGURE@', intkind, t)
    open(dst + '/cloog/int.h', 'w').write(t)
    p = REPO + '/include/cloog/version.h.in'
    if os.path.exists(p):
        t = open(p).read()
        t = re.sub(r'@\w+@', '0', t)
        open(dst + '/cloog/version.h', 'w').write(t)
    p = REPO + '/source/version.c.in'
    if os.path.exists(p):
        t = re.sub(r'@\w+@', '0', open(p).read())
        open(dst + '/version.c', 'w').write(t)
        open(dst + '/version.h', 'w').write('#define CLOOG_HEAD "verif"\n')


CPPFLAGS = ['-DISL_USING_GMP_VAL=1']


def build_objs(outdir, cc='gcc', cflags=('-g', '-O1'), pre_inc=(), intkind='CLOOG_INT_GMP',
               defines=(), only=None, keep_failed=False):
    """Compile every source file of /repo; returns list of objects."""
    os.makedirs(outdir, exist_ok=True)
    inc = outdir + '/inc'
    gen_headers(inc, intkind)
    objs, jobs = [], []
    srcs = repo_sources()
    if os.path.exists(inc + '/version.c') and REPO + '/source/version.c' not in srcs:
        srcs.append(inc + '/version.c')
    for s in srcs:
        rel = os.path.relpath(s, REPO + '/source') if s.startswith(REPO) else os.path.basename(s)
        if only and rel not in only:
            continue
        o = outdir + '/' + rel.replace('/', '_')[:-2] + '.o'
        cmd = [cc, '-c', '-w', '-std=gnu99', *cflags, *CPPFLAGS, *defines]
        for p in pre_inc:
            cmd += ['-I', p]
        cmd += ['-I', inc, '-I', REPO + '/include', '-I', REPO, '-o', o, s]
        jobs.append((cmd, o, s))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: run(j[0], timeout=300), jobs))
    for (cmd, o, s), (rc, so, se) in zip(jobs, res):
        if rc != 0:
            raise Inconclusive('compilation failed: %s\n%s' % (s, se[-2000:]))
        objs.append(o)
    return objs


_cloog = None


def build_cloog():
    """Build the cloog command from the current tree with real gmp and isl."""
    global _cloog
    if _cloog:
        return _cloog
    d = scratch() + '/native'
    objs = build_objs(d)
    exe = d + '/cloog'
    rc, so, se = run(['gcc', '-o', exe, *objs, '-lisl', '-lgmp'], timeout=120)
    if rc != 0:
        raise Inconclusive('link failed: ' + se[-2000:])
    _cloog = exe
    return exe


def build_driver(csrc, name, cflags=('-g', '-O1'), cc='gcc', extra=()):
    """Link a C driver from /verif against the current tree (real gmp/isl)."""
    d = scratch() + '/drv_' + name
    objs = build_objs(d, cc=cc, cflags=cflags)
    objs = [o for o in objs if os.path.basename(o) != 'cloog.o']
    exe = d + '/' + name
    cmd = [cc, '-w', '-Werror=implicit-function-declaration', '-std=gnu99', *cflags, *CPPFLAGS, '-I', d + '/inc', '-I', REPO + '/include',
           '-I', REPO, '-o', exe, csrc, *objs, *extra, '-lisl', '-lgmp']
    rc, so, se = run(cmd, timeout=120)
    if rc != 0:
        raise Inconclusive('driver link failed: ' + se[-2000:])
    return exe


# ---------------------------------------------------------------- verdicts --

class Check:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.inconclusive = []
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.findings = load_known(prop)
        self.rdir = os.path.join(VERIF, 'replays', prop)
        shutil.rmtree(self.rdir, ignore_errors=True)

    def replay_path(self, name):
        os.makedirs(self.rdir, exist_ok=True)
        return os.path.join(self.rdir, name)

    def violation(self, key, text, files=None):
        """A confirmed violation. key identifies the failing case."""
        for f in self.findings:
            if f['key'] == key or (f.get('prefix') and key.startswith(f['key'])):
                if f not in self.known:
                    self.known.append(f)
                return
        h = hashlib.sha1(key.encode()).hexdigest()[:8]
        base = re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:60] + '-' + h
        p = self.replay_path(base + '.txt')
        with open(p, 'w') as fh:
            fh.write('property %s\ncase %s\n\n%s\n' % (self.prop, key, text))
            for n, c in (files or {}).items():
                fh.write('\n---- %s ----\n%s\n' % (n, c))
        self.violations.append({'case': key, 'replay': p, 'summary': text.split('\n')[0][:300]})

    def note_inconclusive(self, what):
        self.inconclusive.append(what[:300])

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def finish(self):
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': self.level, 'coverage': self.cov,
            'wall_s': round(time.time() - self.t0, 2),
            'assumptions': self.assumptions,
            'violations': len(self.violations),
        }
        if self.violations:
            ev['coverage']['violation_list'] = self.violations[:20]
        ev['coverage']['inconclusive'] = len(self.inconclusive)
        if self.inconclusive:
            ev['coverage']['inconclusive_items'] = self.inconclusive[:40]
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        tmp = VERIF + '/evidence/.%s.tmp' % self.prop
        json.dump(ev, open(tmp, 'w'), indent=1, default=str)
        os.replace(tmp, VERIF + '/evidence/%s.json' % self.prop)
        for f in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        for v in self.violations[:20]:
            print('VIOLATION property=%s replay=%s' % (self.prop, v['replay']))
            print('  ' + v['summary'])
        print('%s %s: %s in %.1fs; %s' % (
            self.prop, self.tier, 'VIOLATED' if self.violations else 'held on everything explored',
            time.time() - self.t0,
            ', '.join('%s=%s' % (k, v) for k, v in self.cov.items()
                      if isinstance(v, (int, float, str)) and len(str(v)) < 60)))
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_known(prop):
    p = VERIF + '/known-findings.jsonl'
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or not line.startswith('{'):
                continue
            d = json.loads(line)
            if d.get('property') == prop and d.get('status') == 'known':
                out.append(d)
    return out


# ------------------------------------------------------------------ workers --
def pimap(fn, items, limit_s, end=None, procs=None):
    """fn over items in forked workers; yields (index, result), with None for a result that took longer than limit_s (or when it is
    later than `end`): its worker is killed, so a query that ignores its own timeout never holds up a check."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')

    def work(conn, others):
        import resource
        for o in others:
            o.close()
        resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
        while True:
            try:
                k = conn.recv()
            except EOFError:
                return
            if k is None:
                return
            try:
                conn.send((k, True, fn(items[k])))
            except MemoryError:
                conn.send((k, True, None))
            except Exception as e:
                mem = 'memory' in str(e)
                conn.send((k, mem, None if mem else '%s: %s' % (type(e).__name__, e)))

    class W:
        pass
    live = []

    def start():
        w = W()
        a, b = ctx.Pipe()
        w.c = a
        w.p = ctx.Process(target=work, args=(b, [x.c for x in live] + [a]), daemon=True)
        w.p.start()
        b.close()
        w.k = None
        live.append(w)
        return w

    def stop(w):
        live.remove(w)
        w.p.kill()
        w.p.join()
        w.c.close()

    nxt = [0]

    def feed(w):
        if nxt[0] < len(items) and not (end and time.time() > end):
            w.k, w.t = nxt[0], time.time()
            nxt[0] += 1
            w.c.send(w.k)
        else:
            w.k = None
    try:
        for _ in range(min(procs or NCPU, len(items))):
            feed(start())
        while any(w.k is not None for w in live):
            busy = [w for w in live if w.k is not None]
            ready = wait([w.c for w in busy], timeout=1)
            for w in busy:
                if w.c in ready:
                    k = w.k
                    try:
                        _, ok, r = w.c.recv()
                    except (EOFError, OSError):
                        stop(w)
                        feed(start())
                        yield k, None
                        continue
                    feed(w)
                    if not ok:
                        raise RuntimeError(r)
                    yield k, r
                elif time.time() - w.t > limit_s or (end and time.time() > end + 20):
                    k = w.k
                    stop(w)
                    feed(start())
                    yield k, None
        for k in range(nxt[0], len(items)):
            yield k, None
    finally:
        for w in list(live):
            stop(w)
