"""I03: export to [incr tsdb()] profiles."""
import json, os, random, shutil, tempfile
from lib.core import MachineryError, asc, consts, cps, pmap, run_tlc, uncps, validate_cases
from harness import standins
from harness.docs import TEXTS, build, edit, node
from harness.latex import quiet
from harness.scripts import xmldoc
from harness.xpath import flat, rdoc
from xigt.codecs import xigtxml
from xigt.exporters import itsdb
from harness import front
from xigt.scripts import xigt_export

SCRATCH = None
TYPES = ['phrases', 'words', 'words', 'glosses', 'Words', 'phrases2']
INPUT = 'i-input'


def E(op, a='', n=0, t='', es=()): return dict(op=op, a=a, n=n, t=cps(t), es=list(es))


def render(e, rng):
    """A Python expression for e."""
    t = uncps(e['t'])
    pick = lambda *xs: rng.choice(xs)
    op = e['op']
    if op == 'num': return str(e['n']) if e['n'] >= 0 else '(%d)' % e['n']
    if op == 'text': return repr(t)
    if op == 'id': return pick('igt.id', '(lambda: igt.id)()', '[igt.id for _ in (1,)][0]', 'igt.get_attribute("id") if False else igt.id')
    if op == 'attr': return pick('igt.attributes.get(%r)', 'igt.get_attribute(%r)', 'next((v for k, v in igt.attributes.items() if k == %r), None)') % e['a']
    if op == 'ntiers': return pick('len(igt)', 'len(igt.tiers)', 'sum(1 for t in igt)')
    if op == 'tierid': return pick('igt[%d].id if len(igt) > %d else ""', '([t.id for t in igt][%d:] + [""])[0] if %d >= 0 else None') % (e['n'], e['n'])
    if op == 'nitems': return pick('sum(len(t) for t in igt.select(type=%r))', 'len([i for t in igt for i in t if i.tier.type == %r])') % t
    if op == 'first': return 'next((i.get_content() for i in next(igt.select(type=%r), [])), "")' % t
    if op == 'join': return pick('" ".join(i.get_content() or "" for i in next(igt.select(type=%r), []))', '" ".join([i.get_content() or "" for t in list(igt.select(type=%r))[:1] for i in t])') % t
    if op == 'or': return ' or '.join('(%s)' % render(x, rng) for x in e['es'])
    if op == 'cat': return '"".join([%s])' % ', '.join('("%%s" %% (%s,) if isinstance(%s, str) else "")' % (x, x) for x in (render(x, rng) for x in e['es']))
    if op == 'bad': return pick('igt.id +', 'def', '"x', '(igt.id', 'igt id', 'x = 1', '1 if igt', 'igt.')
    return itsdb.DEFAULT_CELLS[0][1]


def value(v):
    if v is None: return dict(k='none', n=0, t=[])
    if type(v) is int: return dict(k='num', n=v, t=[])
    if isinstance(v, str): return dict(k='text', n=0, t=cps(v))
    return dict(k=asc('? %r' % (v,)), n=0, t=[])


def export(d, o, c, own, rng, rels='own', times=1, script=False):
    """(err, calls, odd, relations) of exporting the corpus."""
    tmp = tempfile.mkdtemp(dir=SCRATCH)
    env = os.environ.pop('LOGONROOT', None)
    del standins.RECORD[:]
    try:
        rel = os.path.join(tmp, 'Relations')
        cfg, want = {}, []
        if rels in ('own', 'both'):
            open(rel, 'w').close(); cfg['relations'] = rel; want = ['own']
        elif rels == 'missing': cfg['relations'] = rel
        elif rels == 'none': cfg['relations'] = rng.choice([None, ''])
        if rels in ('env', 'both', 'emptyenv'):
            os.environ['LOGONROOT'] = tmp
            if rels != 'emptyenv':
                p = os.path.join(tmp, 'lingo/lkb/src/tsdb/skeletons/english'); os.makedirs(p)
                open(os.path.join(p, 'Relations'), 'w').close()
                if rels == 'env': want = ['env']
        if c['start'] != 0 or rng.random() < .5: cfg['i-id_start'] = c['start']
        if c['skip'] != 10 or rng.random() < .5: cfg['i-id_skip'] = c['skip']
        if own: cfg['cells'] = [[uncps(x['key']), render(x['e'], rng)] for x in c['cells']]
        out = os.path.join(tmp, 'out')
        if script:
            i = os.path.join(tmp, 'in.xml')
            try: xigtxml.dump(i, o, encoding=rng.choice(['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'us-ascii']))
            except UnicodeEncodeError: xigtxml.dump(i, o)
            args = ['-i', i, '-o', out, '-f', 'itsdb']
            if cfg or rng.random() < .5:
                with open(os.path.join(tmp, 'c.json'), 'w') as f: json.dump(cfg, f)
                args += ['-c', os.path.join(tmp, 'c.json')]
            for _ in range(times): t, v = quiet(front.main, xigt_export, args)
        else:
            if not cfg and rng.random() < .7: cfg = None
            for _ in range(times): t, v = quiet(itsdb.xigt_export, o, out, cfg)
        odd, calls = '', []
        for r in standins.RECORD:
            if r['out'] != out: odd = 'output'
            rows = []
            for row in r['rows']:
                i = row.pop('i-id', None)
                if type(i) is not int: odd = 'i-id %r' % (i,); i = 0
                rows.append(dict(id=i, row=[[cps(k), value(v)] for k, v in row.items()]))
            calls.append(dict(rel='own' if r['relations'] == rel else 'env', rows=rows))
        return '' if t == 'ok' else '%s: %r' % (t, v), calls, asc(odd), want
    finally:
        shutil.rmtree(tmp)
        os.environ.pop('LOGONROOT', None)
        if env is not None: os.environ['LOGONROOT'] = env


# ---------------------------------------------------------------- generated

def mcdoc():
    it = lambda i, t=None, **a: node('item', id=i, attrs=a, text=t)
    P = node('tier', id='p', type='phrases', ch=[it('p1', 'la casa')])
    W = node('tier', id='w', type='words', attrs=dict(segmentation='p'), ch=[it('w1', segmentation='p1[0:2]'), it('w2', 'casa', segmentation='p1[3:7]')])
    W2 = node('tier', id='w', type='words', ch=[it('w1', 'x'), it('w2'), it('w3', 'y')])
    return node('corpus', ch=[node('igt', id='i1', attrs=dict(a='1'), ch=[P, W]), node('igt', attrs=dict(a='', b='2'), ch=[]), node('igt', id='i3', ch=[W2, node('tier', id='v', type='words', ch=[it('v1', 'z')])]),
                              node('igt', id='i4', attrs=dict(a='q'), ch=[node('tier', type='phrases', ch=[it('f')]), W2])])


def gen(x):
    c, k = x
    d = mcdoc()
    o = build(d)
    c, out = c['c'], c['out']
    err, calls, odd, _ = export(d, o, c, True, random.Random(k))
    norm = lambda rows: json.dumps([dict(id=r['id'], row=sorted(r['row'])) for r in rows], sort_keys=True) if rows is not None else None
    srt = lambda rows: [dict(id=r['id'], row=sorted(r['row'], key=json.dumps)) for r in rows]
    if err or odd or len(calls) != 1 or srt(calls[0]['rows']) != srt(out):
        tell = lambda rows: [(r['id'], {uncps(k): v for k, v in r['row']}) for r in rows]
        return ('cells %s: %s; rows %s; specified %s' % ([(uncps(z['key']), render(z['e'], random.Random(0))) for z in c['cells']], err or odd, [tell(x['rows']) for x in calls], tell(out)), dict(t='gen', c=x[0], k=k))


# ------------------------------------------------------------------- random

def rexpr(rng, depth=2):
    op = rng.choice(['num', 'text', 'id', 'attr', 'attr', 'ntiers', 'tierid', 'nitems', 'first', 'join', 'input'] + ['or', 'or', 'cat'] * (depth > 0))
    e = E(op)
    if op == 'num': e['n'] = rng.choice([0, 1, -1, 7, 10 ** 6])
    elif op == 'text': e['t'] = cps(rng.choice(['', 'x', 'é', "it's", '"', '{a}', 'key', '%s']))
    elif op == 'attr': e['a'] = rng.choice(['v', 'lang', 'doc-id', 'k_1', 'id'])
    elif op == 'tierid': e['n'] = rng.choice([0, 0, 1, 2, 5])
    elif op in ('nitems', 'first', 'join'): e['t'] = cps(rng.choice(TYPES))
    elif op in ('or', 'cat'): e['es'] = [rexpr(rng, depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))]
    return e


def noattr_id(e):
    if e['op'] == 'attr' and e['a'] == 'id': e['a'] = 'v'
    for x in e['es']: noattr_id(x)
    return e


def rnd(seed):
    rng = random.Random(seed)
    script = rng.random() < .4
    d = xmldoc(rng, True) if script else rdoc(rng, True)
    d = d[0] if isinstance(d, tuple) else d
    for g in d['ch']:
        for t in g['ch']:
            if rng.random() < .8: t['type'] = [rng.choice(TYPES)]
    o = build(d)
    plain = rng.random() < .1
    if not script and rng.random() < .25:   # not the first time, and edited since
        export(d, o, dict(start=0, skip=10, cells=[]), False, rng)
        edit(d, o, rng, TEXTS)
    f, _ = flat(d, o)
    keys = ['i-input', 'i-wf', 'i-comment', 'key', 'mapper', 'igt', 'é', 'i-length']
    c = dict(start=rng.choice([0, 0, 1, 10, 1000, -5]), skip=rng.choice([10, 10, 1, 5, 0, -1]),
             cells=[dict(key=cps(rng.choice(keys)), e=noattr_id(rexpr(rng))) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))])
    if c['cells'] and rng.random() < .05: rng.choice(c['cells'])['e'] = E('bad')
    own = rng.random() < .8
    rels = rng.choice(['own'] * 8 + ['env', 'both', 'none', 'missing', 'emptyenv', ''])
    if rels == '' and not own: own = True
    if plain: c.update(start=0, skip=10); own, rels = False, 'env'
    times = rng.choice([1, 1, 1, 2])
    err, calls, odd, rel = export(d, o, c, own, rng, rels, times, script)
    return dict(doc=f, c=c, own=own, rel=rel, err=bool(err), errtext=asc(err)[:300], calls=calls, odd=odd, times=times, src=dict(t='rnd', seed=seed))


def canary(c):
    if not c['err'] and not c['odd'] and c['calls'] and c['calls'][0]['rows']:
        c['calls'][0]['rows'][-1]['id'] += 1
        return c


def judge(ctx, cs):
    keep = [{k: v for k, v in c.items() if k not in ('src', 'errtext')} for c in cs]
    for i, m in validate_cases(ctx, 'Trace_Itsdb', keep, canary, per=8, timeout=1200):
        c = cs[i]
        ctx.violation('%s: cells %s; %s %s; rows %s; specified %s' % (json.dumps(c['src']), [(uncps(x['key']), x['e']['op']) for x in c['c']['cells']] if c['own'] else 'default', c['errtext'], m['bad'],
                                                             json.dumps(c['calls'])[:1500], json.dumps(m['exp'])[:1500]), c['src'])


def run(ctx):
    global SCRATCH
    SCRATCH = ctx.scratch
    d = mcdoc()
    f, _ = flat(d, build(d))
    p = os.path.join(ctx.scratch, 'doc.ndjson')
    with open(p, 'w') as h: h.write(json.dumps(f) + '\n')
    cases = []
    run_tlc(ctx, 'MC_Itsdb', 'INIT Init\nNEXT Next\nINVARIANTS Steps Apart Order\nCONSTRAINT Emit\n' + consts(MaxC=ctx.n(2, 3)), env={'DOC_FILE': p},
            collect=lambda t, c: cases.append(c), timeout=2500, heap='10g')
    if len(cases) < 900: raise MachineryError('too few cases')
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.notes['generated_cases'] = len(cases)
    ctx.replayed += len(cases)
    for r in pmap(gen, [(c, k) for k, c in enumerate(cases)]):
        if r: ctx.violation(*r)
    cs = pmap(rnd, ['I03%s-%d' % (ctx.seed, k) for k in range(ctx.n(3000, 25000))])
    ctx.notes['failed_exports'] = sum(1 for c in cs if c['err'])
    ctx.sample(dict(kind='export', rows=[x for c in cs[:20] for x in c['calls'] if x['rows']][:1]))
    judge(ctx, cs)


def replay(ctx, case):
    global SCRATCH
    SCRATCH = ctx.scratch
    if case['t'] == 'gen':
        ctx.replayed += 1
        r = gen((case['c'], case['k']))
        if r: ctx.violation(*r)
    else: judge(ctx, [rnd(case['seed'])] + [rnd('x%d' % k) for k in range(60)])
