"""Shared machinery of the conformance checks.

Every check is: (1) model check of the design specification with TLC,
(2) behaviours generated by TLC from the same specification, (3) those
behaviours stepped through the real legume code imported from /repo, recording
what the public API shows, (4) the recorded trace judged by TLC against the
specification.  This module holds steps 1, 2, 4 and the bookkeeping; the
drivers in /verif/checks hold step 3.
"""
import json, os, sys, time, math, subprocess, tempfile, shutil, re, signal
import traceback, io, contextlib, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LEGUME_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
NPROC = max(1, min(8, os.cpu_count() or 1))
BIG = 2**31 - 1
T0 = time.time()

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
_scratch = None


def scratch():
    """A private directory, removed when the process that made it ends."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        d = tempfile.mkdtemp(prefix='verif_')
        _scratch = (os.getpid(), d)
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(
            d, ignore_errors=True))
    return _scratch[1]


os.environ.setdefault('MPLCONFIGDIR', os.path.join(scratch(), 'mpl'))
os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)


# --------------------------------------------------------------- numbers
class NotFinite(Exception):
    pass


def fx(v, scale=10**8):
    """Fixed-point integer for TLC (32 bit).  NaN, inf and values that do not
    fit are mapped to BIG, which every specification rejects."""
    import numpy as np
    try:
        v = float(np.real(v))
    except Exception:
        return BIG
    if not math.isfinite(v):
        return BIG
    r = int(round(v * scale))
    if abs(r) >= BIG:
        return BIG
    return r


def fxl(vs, scale=10**8):
    import numpy as np
    return [fx(v, scale) for v in np.asarray(vs).ravel()]


# --------------------------------------------------------------- legume calls
class Timeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    def h(s, f):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def call(f, *a, seconds=120, **k):
    """Run a legume call: ('ok', value) or ('exc', 'TypeName: message').  The
    outcome is an observation for the specification to judge, so nothing
    legume raises ends the check."""
    buf = io.StringIO()
    try:
        import warnings
        with limit(seconds), contextlib.redirect_stdout(buf), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return 'ok', f(*a, **k)
    except Timeout:
        return 'exc', 'Timeout'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in reversed(tb):
            if '/legume/' in fr.filename:
                where = ' @%s:%s' % (os.path.basename(fr.filename), fr.name)
                break
        return 'exc', '%s: %s%s' % (type(e).__name__, str(e)[:160], where)


def etype(msg):
    return msg.split(':')[0]


def pmap(f, items, procs=None, chunk=1):
    """Parallel map over forked workers, in order."""
    items = list(items)
    procs = min(procs or NPROC, len(items))
    if procs <= 1:
        return [f(i) for i in items]
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    with ctx.Pool(procs) as p:
        return p.map(f, items, chunk)


def pmap_fresh(f, items, procs=None):
    """Like pmap, but every item gets a process of its own that has not run
    anything before."""
    items = list(items)
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs or NPROC, max(1, len(items))),
                  maxtasksperchild=1) as p:
        return p.map(f, items, 1)


def fresh(f, *a):
    """Run f(*a) in a forked child, so that nothing it does to module state
    survives."""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    with ctx.Pool(1) as p:
        return p.apply(f, a)


# --------------------------------------------------------------- TLC
class TLCError(Exception):
    pass


def tlc(module, cfg=None, args=(), env=None, timeout=600, workers='auto',
        heap='3g'):
    """Run TLC in a scratch copy of /verif/spec. Returns (rc, output)."""
    d = tempfile.mkdtemp(prefix='tlc_', dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith('.tla') or f.endswith('.cfg'):
            shutil.copy(os.path.join(SPEC, f), d)
    cmd = ['tlc', '-workers', str(workers), '-metadir', os.path.join(d, 'st'),
           '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg',
           *map(str, args), module + '.tla']
    e = dict(os.environ)
    e['JAVA_TOOL_OPTIONS'] = ('-Xmx%s -Xss64m -XX:+UseParallelGC '
                              '-Djava.io.tmpdir=%s' % (heap, d))
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b'').decode('utf8', 'replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc_stats(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
    if m:
        g, dst = m[-1]
        return int(g.replace(',', '')), int(dst.replace(',', ''))
    m = re.findall(r'generated ([\d,]+) states', out)
    m2 = re.findall(r'The number of states generated: ([\d,]+)', out)
    if m2:
        n = int(m2[-1].replace(',', ''))
        return n, n
    return 0, 0


def unquote(s):
    return json.loads(s)


NO_VALUE = 'The error occurred when TLC was evaluating'


class Check:
    """One property's run: accumulates model-checking counts, traces and
    violations, and writes the evidence file at the end."""

    def __init__(self, pid, level='model_checking', assumptions=()):
        self.pid = pid
        self.level = level
        self.assumptions = list(assumptions)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.viol = []      # (clause, where, replay)
        self.known = []
        self.extra = {}
        self.errors = []
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        for f in os.listdir(OUT):
            if f.startswith(pid + '_'):
                os.remove(os.path.join(OUT, f))
        self.findings = []
        kf = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line.startswith('{'):
                    r = json.loads(line)
                    if r.get('property') == pid and r.get('status') == 'open':
                        self.findings.append(r)

    # -- 1: the design
    def model(self, module, cfg=None, timeout=300, args=(), env=None,
              expect_violation=None):
        """Exhaustive TLC run of the design spec.  expect_violation names the
        invariant a deliberately broken variant has to violate (vacuity)."""
        rc, out = tlc(module, cfg, args=args, timeout=timeout, env=env)
        gen, dist = tlc_stats(out)
        self.states += dist
        self.transitions += gen
        if expect_violation:
            if ('Invariant %s is violated' % expect_violation not in out and
                    'property %s' % expect_violation not in out and
                    'Action property %s' % expect_violation not in out):
                self.errors.append('broken variant %s/%s not rejected:\n%s' %
                                   (module, cfg, out[-1500:]))
            self.extra.setdefault('rejected_variants', []).append(
                '%s:%s' % (cfg or module, expect_violation))
        elif rc != 0:
            self.errors.append('TLC on %s/%s: rc=%d\n%s' %
                               (module, cfg, rc, out[-3000:]))
        self.extra.setdefault('models', {})[cfg or module] = dict(
            distinct=dist, generated=gen)
        return out

    # -- 2: behaviours
    def generate(self, module, cfg=None, num=None, depth=60, timeout=300,
                 seed=None, env=None, unique=True):
        """Behaviours printed by the generator spec as CASE <json>.  With num:
        random simulation; without: exhaustive enumeration."""
        args = []
        if num is not None:
            args = ['-simulate', 'num=%d' % num, '-depth', depth, '-seed',
                    SEED if seed is None else seed]
        rc, out = tlc(module, cfg, args=args, timeout=timeout, env=env,
                      workers=1)
        cases = []
        seen = set()
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"CASE '):
                txt = unquote(line)[5:]
                if unique and txt in seen:
                    continue
                seen.add(txt)
                cases.append(json.loads(txt))
        if rc not in (0, ) or not cases:
            raise TLCError('generator %s: rc=%d cases=%d\n%s' %
                           (module, rc, len(cases), out[-3000:]))
        gen, dist = tlc_stats(out)
        self.states += dist
        self.transitions += gen
        self.extra.setdefault('generated', {})[cfg or module] = len(cases)
        return cases

    # -- 4: verdict
    def judge(self, module, traces, cfg=None, timeout=600, consts=None,
              label='', batch=None):
        """traces: list of traces; each trace is a list of events (dicts).
        TLC consumes all of them and reports which clause each rejected event
        violates."""
        traces = [t for t in traces if t]
        if not traces:
            raise TLCError('no traces for ' + module)
        d = scratch()
        groups = [traces]
        if batch:
            n = max(1, math.ceil(len(traces) / batch))
            groups = [traces[i::n] for i in range(n)]

        def run(g, tag):
            inp = os.path.join(d, 'trace_%s_%s_%s.json' % (module, label, tag))
            outp = os.path.join(d, 'verdict_%s_%s_%s.json' %
                                (module, label, tag))
            with open(inp, 'w') as f:
                json.dump(dict(traces=g, consts=consts or {}), f)
            if os.path.exists(outp):
                os.remove(outp)
            rc, out = tlc(module, cfg, timeout=timeout, workers=1,
                          env=dict(TRACE=inp, VERDICT=outp))
            return g, rc, out, outp

        unread = []

        def one(g, tag):
            """A recorded trace on which the specification has no value (an
            observation that is missing, or of the wrong length) is found by
            halving, and is a violation itself; the others are judged."""
            r = run(g, tag)
            if r[1] == 0 or NO_VALUE not in r[2]:
                return [r]
            if len(g) == 1:
                unread.append((g[0], r[2]))
                return []
            if len(unread) >= 2:
                unread.append((g[0], r[2]))
                return []
            h = len(g) // 2
            return one(g[:h], tag + 'a') + one(g[h:], tag + 'b')

        if len(groups) > 1:
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(NPROC) as ex:
                res = sum(ex.map(one, groups, map(str, range(len(groups)))),
                          [])
        else:
            res = one(traces, '0')
        for t, out in unread:
            self.violation(module, 'observations-have-their-form', t, 0,
                           dict(id='trace', tlc=out[-1500:]))
        for g, rc, out, outp in res:
            nev = sum(len(t) for t in g)
            if rc != 0 or not os.path.exists(outp):
                self.errors.append('trace spec %s %s: rc=%d\n%s' %
                                   (module, label, rc, out[-4000:]))
                continue
            v = json.load(open(outp))[0]
            if v['events'] != nev:
                self.errors.append('trace spec %s consumed %s of %d events' %
                                   (module, v['events'], nev))
            gen, dist = tlc_stats(out)
            self.states += dist
            self.transitions += gen
            self.traces += len(g)
            for b in v['bad']:
                t = g[b['trace'] - 1]
                ev = t[b['event'] - 1]
                self.violation(module, b['clause'], t, b['event'], ev)
        return

    def violation(self, module, clause, trace, idx, ev):
        ident = ev.get('id') or ev.get('case') or ''
        for f in self.findings:
            if f.get('clause') == clause and f.get('case') == ident:
                self.known.append(f)
                return
        n = len(self.viol)
        path = os.path.join(OUT, '%s_%d.json' % (self.pid, n))
        if n < 20:
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, spec=module, clause=clause,
                               event_index=idx, event=ev, trace=trace), f,
                          indent=1)
        self.viol.append((clause, str(ident), path))

    def sample(self, *xs):
        for x in xs:
            if len(self.samples) < 4:
                s = json.dumps(x)
                self.samples.append(x if len(s) < 4000 else s[:4000] + '...')

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ['(none)'])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough')
                  else 'quick', seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - T0, 2),
                  violations=len(self.viol))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        seen = set()
        for k in self.known:
            line = 'KNOWN-FINDING: property=%s %s' % (self.pid, k['what'])
            if line not in seen:
                seen.add(line)
                print(line)
        if self.errors:
            for e in self.errors:
                print('ERROR', e, file=sys.stderr)
        if self.viol:
            shown = {}
            for clause, ident, path in self.viol:
                shown.setdefault(clause, []).append((ident, path))
            for clause, l in shown.items():
                print('  clause %s rejected %d event(s), first: %s' %
                      (clause, len(l), l[0][0]))
            print('VIOLATION property=%s replay=%s' %
                  (self.pid, self.viol[0][2]))
            sys.exit(1)
        if self.errors:
            sys.exit(3)
        print('OK property=%s tier=%s states=%d transitions=%d traces=%d '
              'wall=%.1fs' % (self.pid, TIER, self.states, self.transitions,
                              self.traces, time.time() - T0))
        sys.exit(0)


def main(pid, body, **kw):
    c = Check(pid, **kw)
    try:
        body(c)
    except SystemExit:
        raise
    except BaseException:
        txt = traceback.format_exc()
        print(txt, file=sys.stderr)
        frames = re.findall(r'File "([^"]+)", line', txt)
        if frames and os.path.realpath(REPO) + '/legume/' in txt:
            # legume itself failed where every valid request must succeed
            c.violation('-', 'valid-request-raises', [txt.splitlines()[-1]], 1,
                        dict(id='driver', error=txt[-3000:]))
        if c.viol:
            c.finish()
        sys.exit(3)
    c.finish()
