"""I01: import of ODIN text."""
import json, os, random, re, shutil, tempfile
from lib.core import MachineryError, asc, consts, cps, pmap, run_tlc, uncps, validate_cases
from harness import standins
from harness.latex import quiet
from xigt.codecs import xigtxml
from xigt.importers import odin
from harness import front
from xigt.scripts import xigt_import

SCRATCH = None
OLAC = '{http://www.language-archives.org/OLAC/1.1/}code'
XSI = '{http://www.w3.org/2001/XMLSchema-instance}type'
DC = 'http://purl.org/dc/elements/1.1/'


def block(b):
    """What the reader delivers for a block."""
    u = uncps
    d = dict(doc_id=u(b['doc']), line_range=' '.join(map(u, b['range'])), line_types=u(b['types']),
             lines=[dict([(a, u(v)) for a, v in l['at']], content=u(l['text'])) for l in b['lines']])
    if b['id']: d['igt_id'] = u(b['id'][0])
    if b['hdr']: d['header_lines'] = [u(h) for h in b['hdr']]
    if b['code']: d['iso-639-3'] = u(b['code'][0])
    if b['lang']: d['language'] = u(b['lang'][0])
    return d


def write(p, bs, rng):
    with open(p, 'w') as f:
        for b in bs:
            d = block(b)
            for k in ('igt_id', 'header_lines', 'iso-639-3', 'language'):
                if k not in d and rng.random() < .3: d[k] = [] if k == 'header_lines' else None
            ks = list(d); rng.shuffle(ks)
            f.write(ascii({k: d[k] for k in ks}) + '\n')


def view(p):
    """(igts, odd) of an imported file."""
    t, xc = quiet(xigtxml.load, p)
    if t != 'ok': return [], 'unreadable: %r' % (xc,)
    odd, igts = [], []
    if xc.metadata or xc.id or xc.type: odd.append('corpus')
    for g in xc:
        if set(g.attributes) != {'doc-id', 'line-range', 'tag-types'} or g.type or g.namespace: odd.append('igt %r' % dict(g.attributes))
        v = dict(id=[cps(g.id)] if g.id is not None else [], doc=cps(g.attributes.get('doc-id', '?')), range=cps(g.attributes.get('line-range', '?')),
                 types=cps(g.attributes.get('tag-types', '?')), hdr=[], code=[], lang=[], items=[])
        ms = [m for md in g.metadata for m in md]
        if len(g.metadata) != 1 or len({m.id for m in ms}) != len(ms): odd.append('metadata')
        for m in ms:
            if m.type == 'odin-header' and not m.children and not m.attributes: v['hdr'].append(cps(m.text or ''))
            elif not m.type and not m.attributes and not m.text and [c.name for c in m.children] == ['subject', 'language']:
                s, l = m.children
                if v['code'] or s.namespace != DC or l.namespace != DC or l.text != 'English' or dict(l.attributes) != {XSI: 'olac:language', OLAC: 'en'} or \
                   set(s.attributes) != {XSI, OLAC} or s.attributes[XSI] != 'olac:language': odd.append('languages')
                v['code'], v['lang'] = cps(s.attributes.get(OLAC, '?')), cps(s.text or '')
            else: odd.append('meta')
        if [t.id for t in g] != ['r']: odd.append('tiers')
        for t in g:
            if t.type != 'odin' or dict(t.attributes) != {'state': 'raw'} or t.metadata: odd.append('tier')
            for i in t:
                if i.type: odd.append('item')
                v['items'].append(dict(id=cps(i.id or ''), text=cps(i.text or ''), at=[[asc(a), cps(x)] for a, x in i.attributes.items()]))
        igts.append(v)
    return igts, ', '.join(odd)


def imported(fs, dir, suf, o, rng):
    """(ok, outs, odd) of an import of files [(name, blocks)]."""
    tmp = tempfile.mkdtemp(dir=SCRATCH)
    try:
        i, q = os.path.join(tmp, 'in' + rng.choice(['', '[1]']) * dir), os.path.join(tmp, 'out')
        os.mkdir(i)
        for n, bs in fs: write(os.path.join(i, n), bs, rng)
        before = {n: open(os.path.join(i, n)).read() for n in os.listdir(i)}
        if not dir:
            os.mkdir(q)
            i, q = os.path.join(i, fs[0][0]), os.path.join(q, re.sub(re.escape(suf) + '$', '.xml', fs[0][0]))
        elif rng.random() < .5: os.mkdir(q)
        cfg = dict(keep_headers=o['keep'], replacement_char=uncps(o['rep']), input_file_suffix=suf)
        for k, v in (('keep_headers', False), ('replacement_char', '\ufffd'), ('input_file_suffix', '.txt')):
            if cfg[k] == v and rng.random() < .7: del cfg[k]
        if rng.random() < .4:
            if not cfg and rng.random() < .5: cfg = None
            t, v = quiet(odin.xigt_import, i, q, cfg)
        else:
            args = ['-f', 'odin', '-i', i, '-o', q]
            if cfg or rng.random() < .3:
                with open(os.path.join(tmp, 'c.json'), 'w') as f: json.dump(cfg, f)
                args += ['-c', os.path.join(tmp, 'c.json')]
            t, v = quiet(front.main, xigt_import, args)
        if t != 'ok': return asc('%s: %r' % (t, v))[:300], [], ''
        d = i if dir else os.path.dirname(i)
        odd = '' if {n: open(os.path.join(d, n)).read() for n in os.listdir(d)} == before else 'input changed'
        outs = []
        d = q if dir else os.path.dirname(q)
        for n in sorted(os.listdir(d)):
            igts, o2 = view(os.path.join(d, n))
            odd = odd or o2
            outs.append(dict(name=cps(n), igts=igts))
        return '', outs, asc(odd)[:300]
    finally: shutil.rmtree(tmp)


# ---------------------------------------------------------------- generated

def norm(igts):
    return json.dumps([dict(g, items=[dict(i, at=sorted(i['at'])) for i in g['items']]) for g in igts], sort_keys=True)


def tell(igts):
    return json.dumps([{k: ([[uncps(i['id']), uncps(i['text']), sorted((a, uncps(v)) for a, v in i['at'])] for i in v] if k == 'items' else
                            [uncps(x) for x in v] if k in ('id', 'hdr') else uncps(v)) for k, v in g.items()} for g in igts])[:1800]


def gen(x):
    cs, k = x
    rng = random.Random(k)
    uniq = lambda xs: [dict(x, id=[cps('i%d' % n)] if x['id'] else []) for n, x in enumerate(xs)]
    bs = uniq(b for c in cs for b in c['c']['bs'])
    exp = uniq(g for c in cs for g in c['out'])
    ok, outs, odd = imported([('a.txt', bs)], False, '.txt', cs[0]['c']['o'], rng)
    if not ok and not odd and len(outs) == 1 and norm(outs[0]['igts']) == norm(exp): return []
    if len(cs) > 1:
        for c in cs:
            r = gen(([c], k))
            if r: return r
    return [('blocks %s (%s): %s, imported %s, specified %s' % (json.dumps(list(map(block, bs)))[:1500], cs[0]['c']['o'], ok or odd,
                                                              tell(outs[0]['igts']) if outs else None, tell(exp)), dict(t='gen', cs=cs, k=k))]


# ------------------------------------------------------------------- random

CH = 'aBcé日 \t<&">\'\\x\x7f\x85\u2028\u00a0\ud7ff\ue000\ufffd' + '\x00\x01\x08\x0b\x0c\x0e\x1f\ud800\udfff\ufffe\uffff\ufdd0\ufddf\ufb01\u0080\u0086\u200b\ufeff\U00010000\U0001d11e\U0010ffff'


def rtext(rng, n=30, pool=CH):
    if pool is CH and rng.random() < .1: pool = [chr(rng.randrange(0x10000)) for _ in range(12)]
    pool = pool if rng.random() < .6 else pool[:10]
    return ''.join(rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 5, 12, n])))


def rblock(rng, k):
    w = 'abcdé<&\'"日 -/.=xyz;0123'
    s = lambda n=8: (rng.choice('abcé日<') + rtext(rng, n, w)).strip()
    n = rng.randint(1, 5000)
    lines = []
    for j in range(rng.choice([0, 1, 2, 3, 3, 4, 7, 12])):
        at = dict(line=str(n + j), tag=rng.choice(['L', 'G', 'T', 'M', 'L+CR', 'L-G+LN', 'B', '']))
        for a in ('judgment', 'col', 'x-y'):
            if rng.random() < .1: at[a] = s()
        if rng.random() < .05: at = {}
        lines.append(dict(text=cps(rtext(rng).replace('\r', '')), at=[[a, cps(v)] for a, v in sorted(at.items())]))
    hdr = []
    if rng.random() < .5: hdr = [cps(rtext(rng)) for _ in range(rng.choice([0, 1, 2]))] + [cps('doc_id=%d x' % k)]
    lang = ''.join(rng.choice(['Ab', 'cDE', 'é', 'É', "'", ' ', ' ', '-', '(', '1', 'zulu', '日']) for _ in range(rng.choice([1, 2, 4, 6])))
    return dict(id=[cps('igt%d-%d' % (k, n))] if rng.random() < .9 else [], doc=cps(s()), range=[cps(str(n)), cps(str(n + len(lines)))], types=cps(s()),
                hdr=hdr, code=[cps(rng.choice(['deu', 'x:y', ' fr ', '', 'q\n', 'DEU', 'zh-Hant ', 'a  B', ' ']))] if rng.random() < .8 else [], lang=[cps(lang)] if rng.random() < .85 else [], lines=lines)


def rnd(seed):
    rng = random.Random(seed)
    dir = rng.random() < .3
    suf = rng.choice(['.txt', '.txt', '.odin', '-x.t+t', '', '[1].txt', '.odin.txt', '.(x)'])
    fs, used = [], set()
    for k in range(rng.choice([0, 1, 2, 3]) if dir else 1):
        n = rng.choice(['a', 'b.c', '9-x', 'é', 'a.txt.b', 'x.txt']) + '%d' % k * (rng.random() < .5) + (suf if rng.random() < .75 or not dir else rng.choice(['.txt.bak', '.xml', '', '.odin']))
        if n in used or re.sub(re.escape(suf) + '$', '', n) in used: continue
        used |= {n, re.sub(re.escape(suf) + '$', '', n)}
        fs.append((n, [rblock(rng, j) for j in range(rng.choice([0, 1, 1, 2, 3, 6]))]))
    o = dict(keep=rng.random() < .5, rep=cps(rng.choice(['\ufffd'] * 4 + ['', '?', '\\1', '\\g<0>', '\\', '[bad]', '&'])))
    ok, outs, odd = imported(fs, dir, suf, o, rng)
    return dict(fs=[dict(name=cps(n), bs=bs) for n, bs in fs], dir=dir, suf=cps(suf), o=o, ok=ok, outs=outs, odd=odd, src=dict(t='rnd', seed=seed))


def canary(c):
    for f in c['outs']:
        for g in f['igts']:
            if len(g['items']) > 1 and not c['ok'] and not c['odd'] and g['items'][0]['text'] != g['items'][1]['text']:
                a, b = g['items'][:2]
                a['text'], b['text'] = b['text'], a['text']
                return c


def judge(ctx, cs):
    keep = [{k: v for k, v in c.items() if k != 'src'} for c in cs]
    for i, m in validate_cases(ctx, 'Trace_Odin', keep, canary, per=4, timeout=1200):
        c = cs[i]
        got, exp = ({uncps(x['name']): x['igts'] for x in fs} for fs in (c['outs'], m['exp']))
        d = [(n, k) for n in sorted(set(got) | set(exp)) for k in range(max(len(got.get(n, [])), len(exp.get(n, [])), 1))
             if n not in got or n not in exp or norm(got[n][k:k + 1]) != norm(exp[n][k:k + 1])][:1]
        f = lambda x: [tell(x[n][k:k + 1]) if n in x else None for n, k in d]
        ctx.violation('%s: %s; %s imported %s; specified %s' % (json.dumps(c['src']), m['bad'], d, f(got), f(exp)), c['src'])


def refusals(ctx):
    """A file with a directory (or nothing) as counterpart is refused and
    nothing is written."""
    tmp = tempfile.mkdtemp(dir=ctx.scratch)
    i, d, x = (os.path.join(tmp, n) for n in ('in.txt', 'dir', 'out.xml'))
    open(i, 'w').close(); os.mkdir(d); open(x, 'w').write('old')
    for a, b in ((i, d), (d, x), (os.path.join(tmp, 'no'), os.path.join(tmp, 'new')), (d, os.path.join(tmp, 'new', 'er'))):
        t, v = quiet(odin.xigt_import, a, b)
        ctx.replayed += 1
        if t == 'ok' or os.listdir(d) or open(x).read() != 'old' or os.path.exists(os.path.join(tmp, 'new')):
            ctx.violation('importing %s to %s: %s, %s' % (os.path.basename(a), os.path.basename(b), t, v), dict(t='refuse'))
    shutil.rmtree(tmp)


def run(ctx):
    global SCRATCH
    SCRATCH = ctx.scratch
    cases = []
    for mode in ('text', 'shape'):
        run_tlc(ctx, 'MC_Odin', 'INIT Init\nNEXT Next\nINVARIANTS Each Cleaned\nCONSTRAINT Emit\n' + consts(Mode=mode, MaxL=ctx.n(2, 3)),
                collect=lambda t, p: cases.append(p), timeout=2500, heap='10g')
    if len(cases) < 1000: raise MachineryError('too few cases')
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.notes['generated_cases'] = len(cases)
    ctx.replayed += len(cases)
    by = {}
    for c in cases: by.setdefault(json.dumps(c['c']['o'], sort_keys=True), []).append(c)
    batches = [(xs[i:i + 40], '%s/%s/%d' % (ctx.seed, o, i)) for o, xs in sorted(by.items()) for i in range(0, len(xs), 40)]
    for r in pmap(gen, batches):
        for v in r: ctx.violation(*v)
    refusals(ctx)
    cs = pmap(rnd, ['I01%s-%d' % (ctx.seed, k) for k in range(ctx.n(2500, 20000))])
    ctx.sample(dict(kind='import', outs={uncps(f['name']): tell(f['igts']) for f in cs[5]['outs']}))
    judge(ctx, cs)


def replay(ctx, case):
    global SCRATCH
    SCRATCH = ctx.scratch
    if case['t'] == 'gen':
        ctx.replayed += 1
        for v in gen((case['cs'], case['k'])): ctx.violation(*v)
    elif case['t'] == 'refuse': refusals(ctx)
    else: judge(ctx, [rnd(case['seed'])] + [rnd('x%d' % k) for k in range(60)])
