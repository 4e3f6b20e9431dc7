"""X04: incremental and transient loading."""
import io, json, os, random
from lib.core import MachineryError, call, consts, pmap, run_tlc, validate_traces
from xigt.codecs import xigtxml, xigtjson
from xigt import Igt, xigtpath as xp
from harness import codec
from harness.docs import build, enc, walk

SCRATCH = None


def plain(n):
    """A node without prefix tables (scoped differently when streamed)."""
    return dict(n, map=[], md=[plain(m) for m in n['md']], ch=[plain(c) for c in n['ch']])


def make(rng, n, simple=False):
    g = codec.XGen(rng, xml=True, texts=codec.XTEXTS, rich=0 if simple else 1)
    d = codec.uniq(g.corpus(n))
    seen = set()
    for k, i in enumerate(d['ch']):
        if not i['id'] or i['id'][0] in seen:
            i['id'] = [] if rng.random() < .2 else ['n%d' % k]
        seen.update(i['id'])
        i['attrs'] = sorted([a for a in i['attrs'] if a[0] != 'nr'] + [['nr', str(k)]])
    return d


class Session(object):
    def __init__(self, d, fmt, mode, rng):
        self.d, self.p, self.f = d, None, None
        self.exp = [enc(o) for o in build(d)]
        full = build(d)
        text = codec.emit(codec.toelem(d, rng), rng) if fmt == 'xml' else xigtjson.dumps(build(d))
        mod = xigtxml if fmt == 'xml' else xigtjson
        # what full loading gives is the reference
        ref = mod.loads(text)
        self.full = ref
        self.exp = [enc(o) for o in ref]
        self.head = enc(ref)
        kw = {} if mode == 'full' and rng.random() < .5 else dict(mode=mode)
        how = rng.choice(['path', 'fh', 'io'])
        if how == 'io':
            self.xc = mod.load(io.BytesIO(text.encode('utf-8')) if fmt == 'xml' else io.StringIO(text), **kw)
        else:
            self.p = codec.tmp('.' + fmt, text.encode('utf-8'))
            if how == 'path': self.xc = mod.load(self.p, **kw)
            else:
                self.f = open(self.p, 'rb')
                self.xc = mod.load(self.f, **kw)
        self.mode, self.seen, self.its, self.rng = mode, {}, [], rng

    def close(self):
        if self.f: self.f.close()
        if self.p: os.unlink(self.p)

    def which(self, o):
        """(number of the IGT, complaint)"""
        if o is None: return [], ''
        e = enc(o)
        a = dict(map(tuple, e['attrs'])).get('nr')
        k = int(a) if a is not None and a.isdigit() else -1
        if not 0 <= k < len(self.exp): return [-1], 'unknown igt'
        bad = ''
        if e != self.exp[k]: bad = 'content differs from full loading'
        elif not (o == self.full[k]): bad = 'not equal to the igt of full loading'
        elif o.corpus is not self.xc: bad = 'owner is not the corpus'
        elif k in self.seen and self.seen[k] is not o: bad = 'another object than the one delivered'
        self.seen[k] = o
        return [k + 1], bad

    def corpus(self):
        h, x = self.head, self.xc
        op = lambda v: [] if v is None else [v]
        got = (op(x.id), op(x.type), op(x.namespace), sorted([a, b] for a, b in x.attributes.items()),
               [enc(m) for m in x.metadata], sorted([a or '', b] for a, b in x.nsmap.items()))
        if got != (h['id'], h['type'], h['ns'], h['attrs'], h['md'], h['map'][0]): return 'corpus data'
        if any(xp.find(m, '..') is not x for m in x.metadata): return 'owner of metadata'
        return ''

    def written(self, mod, fmt):
        """Writing is a whole iteration: what the file has of the igts."""
        how = self.rng.choice(['dumps', 'dumps', 'dump'])
        if how == 'dumps': text = mod.dumps(self.xc)
        else:
            p = codec.tmp('.out')
            mod.dump(p, self.xc)
            with open(p, encoding='utf-8') as f: text = f.read()
            os.unlink(p)
        def split(t):
            if fmt == 'xml':
                h, b = codec.parse(t)
                h = codec.opt_blank(h)
                ch = [c for c in h['ch'] if c['loc'] == 'igt']
                nr = [[a['v'] for a in c['at'] if a['loc'] == 'nr' and not a['pre']] for c in ch]
                return dict(h, ch=[c for c in h['ch'] if c['loc'] != 'igt'], text=[], blank=0, bad=b), ch, nr
            h = json.loads(t)
            ch = h.pop('igts', [])
            return h, ch, [[c.get('attributes', {}).get('nr')] for c in ch]
        head, igts, nrs = split(text)
        fhead, figts, _ = split(mod.dumps(self.full))
        out, bad = [], '' if head == fhead else 'head of the written file'
        for c, nr in zip(igts, nrs):
            k = int(nr[0]) if nr and str(nr[0]).isdigit() else -1
            if not 0 <= k < len(figts): return [-1], 'unknown igt in the file'
            if c != figts[k]: bad = bad or 'written igt differs from full loading'
            out.append(k + 1)
        return out, bad or self.corpus()

    def do(self, op, i):
        out, bad = [], ''
        xc = self.xc
        if op == 'open': self.its.append(iter(xc))
        elif op == 'step':
            try: out, bad = self.which(next(self.its[i - 1]))
            except StopIteration: pass
        elif op == 'drop':
            self.its[i - 1].close()
        elif op == 'all':
            r = self.rng.choice(['igts', 'list', 'for', 'select', 'child', 'descendant', 'absolute', 'star', 'xml', 'json'])
            if r in ('xml', 'json'): return self.written(xigtxml if r == 'xml' else xigtjson, r)
            for o in (xc.igts if r == 'igts' else list(xc) if r == 'list' else xc.select() if r == 'select' else
                      xp.findall(xc, 'igt') if r == 'child' else
                      [x for x in xp.findall(xc, '//igt') if isinstance(x, Igt)] if r == 'descendant' else
                      xp.iterfind(xc, '/igt') if r == 'absolute' else
                      [x for x in xp.findall(xc, '*') if isinstance(x, Igt)] if r == 'star' else [x for x in xc]):
                k, b = self.which(o)
                out += k; bad = bad or b
        elif op == 'len':
            out = [len(xc)]
            for j in range(len(xc)):
                k, b = self.which(xc[j]); bad = bad or b
        elif op == 'get':
            o = xc.get(self.exp[i - 1]['id'][0])
            out, bad = self.which(o)
        elif op == 'at':
            out, bad = self.which(xc.get(i))
        return out, bad or self.corpus()


def play(d, fmt, mode, ops, rng, n=None):
    ev = []
    for _ in playing(d, fmt, mode, ops, rng, ev): pass
    return ev


def playing(d, fmt, mode, ops, rng, ev):
    """Carries out the operations one by one."""
    t, s = call(Session, d, fmt, mode, rng, limit=20)
    if t != 'ok':
        ev.append(dict(op='len', i=0, out=[-9], ok='opening: ' + codec.asc(repr(s))))
        return
    try:
        for op, i in ops:
            yield
            t, v = call(s.do, op, i, limit=20)
            if t != 'ok': v = ([-9], codec.asc(repr(v)))
            ev.append(dict(op=op, i=i, out=v[0], ok=v[1]))
            if t != 'ok': break
    finally: s.close()


def gen(x):
    c, k, seed = x
    rng = random.Random('%s/%s' % (seed, k))
    d = make(rng, c['n'], True)
    for j, i in enumerate(d['ch']):
        i['id'] = ['g%d' % (j + 1)]
    ops = [(h['op'], h['i']) for h in c['hist'] if h['op'] != 'get' or h['i'] <= c['n']]
    fmt = rng.choice(['xml', 'xml', 'json'])
    ev = play(d, fmt, c['mode'], ops, rng)
    exp = [h['out'] for h in c['hist'] if h['op'] != 'get' or h['i'] <= c['n']]
    for e, o in zip(ev, exp):
        if e['out'] != o or e['ok']:
            return dict(what='%s after %s in %s mode (%s): %s %s, expected %s' % ((e['op'], e['i']), ops[:ev.index(e)], c['mode'], fmt, e['out'], e['ok'], o),
                        case=dict(t='gen', c=c, k=k, seed=seed))
    return None


def rnd(x):
    """Sessions on one corpus, or on a few at a time."""
    seed, big = x
    rng = random.Random('r%s' % seed)
    out, runs = [], []
    for _ in range(1 if big else rng.choice([1, 1, 1, 2, 3])):
        n = rng.choice([60, 150]) if big else rng.choice([0, 1, 2, 3, 3, 4, 5, 8, 12])
        d = make(rng, n)
        mode = rng.choice(['full', 'incremental', 'incremental', 'transient', 'transient'])
        fmt = rng.choice(['xml', 'xml', 'json'])
        ops, k = [], 0
        for _ in range(rng.randint(20, 60) + n):
            r = rng.random()
            if r < .12 and k < 5: ops.append(('open', 0)); k += 1
            elif r < .75 and k: ops.append(('step', rng.randint(1, k)))
            elif r < .78 and k: ops.append(('drop', rng.randint(1, k)))
            elif r < .80: ops.append(('all', 0))
            elif r < .86: ops.append(('len', 0))
            elif r < .93:
                g = [j for j, c in enumerate(d['ch'], 1) if c['id']]
                if g: ops.append(('get', rng.choice(g)))
            else: ops.append(('at', rng.randint(0, n)))
        ops += [('all', 0), ('len', 0), ('all', 0)]
        ev = []
        out.append(dict(n=n, mode=mode, ev=ev, src=dict(t='rnd', seed=seed, big=big, fmt=fmt, mode=mode)))
        runs.append(playing(d, fmt, mode, ops, rng, ev))
    for r in runs: next(r, None)    # all are opened
    while runs:
        r = rng.choice(runs)
        try: next(r)
        except StopIteration: runs.remove(r)
    return out


def canary(t):
    for e in t['ev']:
        if e['op'] == 'step' and e['out'] and t['mode'] != 'full':
            e['out'] = [e['out'][0] + 1]
            return t


def judge(ctx, ts):
    for m in validate_traces(ctx, 'Trace_Stream', ts, canary):
        t = m.pop('trace')
        ctx.violation('%s %s in %s mode: %s %s, expected %s, after %s' % (m['op'], m['i'], t['mode'], m['got'], m['ok'], m['exp'],
                      [(e['op'], e['i'], e['out']) for e in t['ev'][:m['l'] - 1]][-12:]), t['src'])


def run(ctx):
    global SCRATCH
    codec.SCRATCH = SCRATCH = ctx.scratch
    cases = []
    run_tlc(ctx, 'MC_Stream', 'INIT Init\nNEXT Next\nINVARIANTS InOrder Holds\nCONSTRAINT Emit\n' + consts(N=ctx.n(3, 3), Depth=ctx.n(5, 6)),
            collect=lambda t, p: cases.append(p), timeout=2500, heap='10g')
    if len(cases) < 1000: raise MachineryError('too few cases')
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.notes['generated_histories'] = len(cases)
    cases = [c for c in cases if any(h['op'] in ('step', 'all') for h in c['hist'])]
    m = ctx.n(12000, 150000)
    if len(cases) > m: cases = ctx.sub('pick').sample(cases, m)
    ctx.replayed += len(cases)
    for v in pmap(gen, [(c, k, ctx.seed) for k, c in enumerate(cases)]):
        if v: ctx.violation(v['what'], v['case'])
    ts = [t for x in pmap(rnd, [('%s-%d' % (ctx.seed, k), False) for k in range(ctx.n(1100, 11000))] +
                          [('%s-%d' % (ctx.seed, k), True) for k in range(ctx.n(8, 60))]) for t in x]
    ctx.sample(dict(kind='session', mode=ts[3]['mode'], ev=ts[3]['ev'][:20]))
    ctx.assumptions.append('igts of one corpus have distinct ids; the document itself is well-formed')
    for k in range(0, len(ts), 4000): judge(ctx, ts[k:k + 4000])


def replay(ctx, case):
    global SCRATCH
    codec.SCRATCH = SCRATCH = ctx.scratch
    if case['t'] == 'gen':
        v = gen((case['c'], case['k'], case['seed']))
        if v: ctx.violation(v['what'], v['case'])
        ctx.replayed += 1
    else:
        judge(ctx, [t for x in [(case['seed'], case['big'])] + [('x%d' % k, False) for k in range(20)] for t in rnd(x)])
