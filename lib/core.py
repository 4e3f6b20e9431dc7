"""Shared machinery of the checks: running TLC, replaying cases in worker
processes with time/memory limits, reporting, evidence, known findings."""
import json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 1)

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class MachineryError(Exception):
    """The check itself could not run (not a statement about the code)."""


class CodeError(Exception):
    """The code under test failed where the check only prepares or observes
    (making a document, reading a member), which always works."""


def raised_by_code(e):
    """Is it the code under test that raised e?"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None: tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename if tb is not None else ''
    return os.path.realpath(f).startswith(os.path.realpath(os.path.join(REPO, 'xigt')) + os.sep)


class Hang(BaseException):
    """A call into the code under test did not come back in time."""


# ---------------------------------------------------------------- calls

def _alarm(signum, frame):
    raise Hang()


_HANGS = 0


def call(f, *a, limit=8.0, **k):
    """Run f; return ('ok', value), ('err', exception) or ('hang', None); the
    limit is in seconds of processor time, so a stalled machine does not count."""
    global _HANGS
    if _HANGS >= 2:                     # enough patience with what does not end
        limit = min(limit, 0.5 if _HANGS < 30 else 0.1)
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        v = f(*a, **k)
        signal.setitimer(signal.ITIMER_PROF, 0)
        return ('ok', v)
    except Hang:
        _HANGS += 1
        return ('hang', None)
    except RecursionError as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return ('err', e)
    except MemoryError as e:
        _HANGS += 1
        signal.setitimer(signal.ITIMER_PROF, 0)
        e.__traceback__ = e.__context__ = None      # lets go of what filled it
        return ('err', e)
    except (Exception, SystemExit) as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return ('err', e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# ------------------------------------------------------------ parallelism

_WORK = None
_XS = None


def _winit():
    try:
        with open('/proc/self/statm') as f:
            vm = int(f.read().split()[0]) * resource.getpagesize()
        lim = vm + (3 << 30)
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    import warnings
    warnings.simplefilter('ignore')


def _wrun(rng):
    out = []
    for i in range(*rng):
        try:
            out.append(('ok', _WORK(_XS[i])))
        except MemoryError:
            out.append(('exc', 'MemoryError in harness'))
        except Exception as e:
            out.append(('code' if raised_by_code(e) else 'exc', traceback.format_exc()))
    return out


def pmap(f, xs, chunk=None, procs=NPROC):
    """Map f over xs in forked workers; a harness exception is a machinery
    error (calls into xigt are to be wrapped with call())."""
    global _WORK, _XS
    xs = list(xs)
    if not xs:
        return []
    if chunk is None:
        chunk = max(1, min(500, len(xs) // (procs * 4) + 1))
    _WORK, _XS = f, xs
    res = []
    ctx = mp.get_context('fork')
    with ctx.Pool(procs, initializer=_winit) as pool:
        for part in pool.imap(_wrun, [(i, min(i + chunk, len(xs))) for i in range(0, len(xs), chunk)]):
            for tag, v in part:
                if tag == 'code':
                    raise CodeError(v)
                if tag == 'exc':
                    raise MachineryError('harness failed:\n' + v)
                res.append(v)
    _XS = None
    return res


# ------------------------------------------------------------------- TLC

class TLCResult(object):
    def __init__(self):
        self.generated = self.distinct = 0
        self.tags = {}
        self.out = ''
        self.rc = None
        self.error = None
        self.wall = 0.0


_TAG = re.compile(r'^"(@@[A-Z]+) ')


def run_tlc(ctx, module, cfg, env=None, workers=NPROC, extra=(), heap='6g',
            timeout=600, expect_error=False, collect=None, recorded=False):
    """Run TLC on spec/<module>.tla with the configuration text cfg."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=ctx.scratch)
    cfgp = os.path.join(d, module + '.cfg')
    with open(cfgp, 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-Dfile.encoding=UTF-8', '-Djava.io.tmpdir=' + d,
           '-DTLA-Library=' + SPEC,
           '-cp', JAR + ':' + CM, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
           '-deadlock', '-noGenerateSpecTE', '-config', cfgp] + list(extra) + \
          [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    r = TLCResult()
    outp = os.path.join(d, 'out.txt')
    with open(outp, 'w') as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=d,
                               env=e, timeout=timeout)
            r.rc = p.returncode
        except subprocess.TimeoutExpired:
            r.rc = -1
    r.wall = time.time() - t0
    tail = []
    with open(outp, encoding='utf-8', errors='replace') as f:
        for line in f:
            m = _TAG.match(line)
            if m:
                tag = m.group(1)
                s = json.loads(line.rstrip('\n'))
                payload = json.loads(s[len(tag) + 1:])
                if collect is not None:
                    collect(tag, payload)
                else:
                    r.tags.setdefault(tag, []).append(payload)
                continue
            m = re.match(r'^(\d+) states generated, (\d+) distinct states', line)
            if m:
                r.generated, r.distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r'^The number of states generated: (\d+)', line)
            if m:
                r.generated = int(m.group(1))
            tail.append(line)
            if len(tail) > 400:
                del tail[:200]
    r.out = ''.join(tail)
    shutil.rmtree(d, ignore_errors=True)
    bad = ('Error:' in r.out or r.rc != 0)
    if bad and not expect_error:
        if recorded and r.rc != -1 and re.search(r'Attempted to|TLC threw an unexpected exception|is not in the domain|The exception was a', r.out) \
                and not re.search(r'OutOfMemory|StackOverflow|Java heap', r.out):
            raise CodeError('what was recorded from the code is not even of the form the specification '
                            'speaks of:\n' + r.out[-3000:])
        raise MachineryError('TLC failed on %s (rc %s):\n%s'
                             % (module, r.rc, r.out[-6000:]))
    r.error = bad
    ctx.tlc_runs.append(dict(module=module, generated=r.generated,
                             distinct=r.distinct, wall_s=round(r.wall, 2)))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    return r


def consts(**kw):
    """Render constants of a configuration."""
    def v(x):
        if x is True: return 'TRUE'
        if x is False: return 'FALSE'
        if isinstance(x, int): return str(x)
        if isinstance(x, str): return json.dumps(x)
        if isinstance(x, (set, frozenset)): return '{' + ', '.join(v(y) for y in sorted(x)) + '}'
        raise TypeError(x)
    return 'CONSTANTS\n' + ''.join('  %s = %s\n' % (k, v(x)) for k, x in kw.items())


# --------------------------------------------------------- trace checking

def validate_traces(ctx, module, traces, canary=None, timeout=600, shards=1,
                    what='traces', constants='', heap='8g'):
    """Check recorded traces against spec/<module>.tla.

    Each trace is a dict {"init":…, "ev":[…]}. TLC explores, per trace, one
    behaviour that consumes the events; where the specification disagrees it
    prints @@MISMATCH and stops that trace. The number of states TLC found
    must match exactly what consuming the traces needs, so none was skipped.
    canary(trace) -> corrupted copy or None: it must be rejected."""
    all_t = list(traces)
    ncan = 0
    if canary is not None:
        for t in traces:
            c = canary(json.loads(json.dumps(t)))
            if c is not None:
                all_t.append(c)
                ncan += 1
                if ncan >= 3:
                    break
    path = os.path.join(ctx.scratch, module + '.%d.ndjson' % len(ctx.tlc_runs))
    with open(path, 'w') as f:
        for t in all_t:
            f.write(json.dumps(t, ensure_ascii=True) + '\n')
    r = run_tlc(ctx, module, 'INIT Init\nNEXT Next\n' + constants,
                env={'TRACE_FILE': path}, timeout=timeout, heap=heap, recorded=True)
    os.unlink(path)
    mm = r.tags.get('@@MISMATCH', [])
    stop = {}
    for m in mm:
        stop.setdefault(m['tid'], m)
    expected = 0
    for i, t in enumerate(all_t, 1):
        expected += 1 + (stop[i]['l'] if i in stop else len(t['ev']))
    if expected != r.distinct:
        raise MachineryError('trace validation of %s explored %d states, expected %d'
                             % (module, r.distinct, expected))
    n = len(traces)
    # (what the code does wrong may leave no trace to corrupt, or make the
    # corruption right)
    if not any(i <= n for i in stop) and canary is not None:
        if ncan == 0:
            raise MachineryError('no canary trace could be made for ' + module)
        for i in range(n + 1, n + ncan + 1):
            if i not in stop:
                raise MachineryError('corrupted canary trace was accepted by ' + module)
    ctx.traces += n
    ctx.events += sum(len(t['ev']) for t in traces)
    return [dict(stop[i], trace=traces[i - 1]) for i in sorted(stop) if i <= n]


# ---------------------------------------------------------------- context

class Ctx(object):
    def __init__(self, pid, tier, seed, replay=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.rng = random.Random('%s/%s' % (pid, seed))
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.replayed = 0
        self.tlc_runs = []
        self.samples = []
        self.violations = []
        self.notes = {}
        self.assumptions = []
        self.replay_in = replay
        self.known = load_known(pid)
        self.known_hit = {}

    def sub(self, label):
        return random.Random('%s/%s/%s' % (self.pid, self.seed, label))

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, case, key=None):
        """Report that the code breaks this property on `case`."""
        for k in self.known:
            if k.get('key') is not None and k['key'] == key:
                self.known_hit.setdefault(k['key'], k)
                return
        self.violations.append((what, case))

    def finish(self):
        for k in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        rc = 0
        if self.violations:
            rc = 1
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            what, case = min(self.violations, key=lambda v: len(json.dumps(v[1], default=repr)))
            path = os.path.join(d, '%s-%d.json' % (self.pid, os.getpid()))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, what=what, case=case, seed=self.seed,
                               tier=self.tier), f, indent=1, default=repr)
            print('%d disagreement(s) between code and specification; smallest:' % len(self.violations))
            print('  ' + str(what)[:3000])
            print('  case: ' + json.dumps(case, default=repr)[:3000])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   generated_cases_replayed_in_impl=self.replayed,
                   recorded_events_checked=self.events,
                   tlc_runs=self.tlc_runs, samples=self.samples[:6])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level='model_checking', coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        if not self.replay_in:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=repr)
        print('%s %s: %d states, %d transitions, %d cases replayed, %d traces (%d events) validated, %d violations, %.1fs'
              % (self.pid, self.tier, self.states, self.transitions, self.replayed,
                 self.traces, self.events, len(self.violations), time.time() - self.t0))
        return rc

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if k['property'] == pid]


# ------------------------------------------------------------- encodings

def asc(s):
    """An opaque string as ASCII (TLC prints non-ASCII as '?')."""
    if s is None:
        return []
    return s.encode('unicode_escape').decode('ascii')


def opt(x, f=lambda v: v):
    return [] if x is None else [f(x)]


def cps(s):
    """A text as a sequence of code points."""
    return [ord(c) for c in s]


def uncps(xs):
    return ''.join(map(chr, xs))


# ---------------------------------------------------- stateless conformance

def validate_cases(ctx, module, cases, canary, per=8, batch=4000, timeout=900, heap='8g', constants=''):
    """Like validate_traces for cases that do not depend on each other: each
    is judged; returns [(case index, mismatch)]."""
    out = []
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        groups = [part[i:i + per] for i in range(0, len(part), per)]
        can = []
        if b == 0:
            for c in part:
                k = canary(json.loads(json.dumps(c)))
                if k is not None:
                    can.append(k)
                    if len(can) == 2:
                        break
            ncan = len(can)
        lines = [dict(ev=g) for g in groups] + [dict(ev=[k]) for k in can]
        path = os.path.join(ctx.scratch, module + '.%d.ndjson' % len(ctx.tlc_runs))
        with open(path, 'w') as f:
            for t in lines:
                f.write(json.dumps(t, ensure_ascii=True) + '\n')
        r = run_tlc(ctx, module, 'INIT Init\nNEXT Next\n' + constants,
                    env={'TRACE_FILE': path}, timeout=timeout, heap=heap, recorded=True)
        os.unlink(path)
        expected = sum(1 + len(t['ev']) for t in lines)
        if expected != r.distinct:
            raise MachineryError('%s explored %d states, expected %d' % (module, r.distinct, expected))
        hit = set()
        for m in r.tags.get('@@MISMATCH', []):
            g = m['tid'] - 1
            if g >= len(groups):
                hit.add(g)
                continue
            out.append((b + g * per + m['l'] - 1, m))
        if b == 0: nhit = len(hit)
        ctx.traces += len(part)
        ctx.events += len(part)
    # (what the code does wrong may leave no case to corrupt, or make the
    # corruption right)
    if cases and not out:
        if not ncan:
            raise MachineryError('no canary case could be made for ' + module)
        if nhit != ncan:
            raise MachineryError('a corrupted canary case was accepted by ' + module)
    return sorted(out, key=lambda x: x[0])
