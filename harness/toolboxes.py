"""I02: import of Toolbox files."""
import json, os, random, re, shutil, tempfile, warnings
from lib.core import MachineryError, asc, consts, cps, pmap, run_tlc, uncps, validate_cases
from harness import standins
from harness.latex import quiet
from xigt.codecs import xigtxml
from xigt.importers import toolbox
from harness import front
from xigt.scripts import xigt_import

SCRATCH = None
MK = dict(t='\\t', m='\\m', g='\\g', p='\\p', f='\\f', x='\\x', id='\\id', ref='\\ref')
TIER = dict(t='w', m='m', g='g', p='pos', f='t')
ENC, MKS = 'utf-8', MK      # of the file being written
B = lambda s: len(s.encode(ENC))


def F(m, full=True, words=(), segs=(), text=''):
    return dict(m=m, full=full, words=list(words), segs=[list(s) for s in segs], text=text)


def layout(fields, rng):
    """Lines of the fields, columns aligned by bytes, perhaps in blocks."""
    by = {f['m']: f for f in fields if f['full']}
    t, m = by.get('t'), by.get('m')
    words = t['words'] if t else None
    # columns of morphemes (with their glosses), grouped by word
    mors = m['segs'] if m else [[] for _ in words or []]
    flat = [x for s in mors for x in s]
    glosses = {k: by[k]['segs'] for k in 'gp' if k in by}
    def cell(xs): return sum(B(x) + 1 for x in xs)
    starts = {'t': [], 'm': [], 'g': [], 'p': []}
    pos = rng.choice([0, 0, 1, 2]) if not t else 0
    k = 0
    breaks = []
    for w, s in enumerate(mors if words is None else mors if len(mors) == len(words) else [[]] * len(words)):
        p0 = pos
        if words is not None: starts['t'].append((pos, words[w]))
        for x in s:
            starts['m'].append((pos, x))
            ends = [pos + B(x) + 1]
            for f, gl in glosses.items():
                q = pos
                for y in gl[k]:
                    starts[f].append((q, y)); q += B(y) + 1 + (rng.random() < .1)
                ends.append(q)
            pos = max(ends) + (rng.random() < .15)
            k += 1
        if words is not None: pos = max(pos, p0 + B(words[w]) + 1)
        if w and rng.random() < .2: breaks.append(p0)
    if not m:
        for f, gl in glosses.items():
            q = 0
            for y in [y for s in gl for y in s]: starts[f].append((q, y)); q += B(y) + 1
    inter = [f['m'] for f in fields if f['m'] in 'tmgp']
    # blocks only if every interlinear field is full and columns are common
    if not (t and m and all(f['full'] for f in fields if f['m'] in 'tmgp')) or inter != sorted(inter, key='tmgp'.index) or len(mors) != len(words): breaks = []
    at = [k for k, f in enumerate(fields) if f['m'] in 'tmgp']
    if at and at[-1] - at[0] >= len(at): breaks = []
    if breaks:  # every block needs tokens on each line
        bs = [0] + sorted(set(breaks)) + [10 ** 9]
        for a, b in zip(bs, bs[1:]):
            if any(not [1 for s, _ in starts[i] if a <= s < b] for i in inter): breaks = []; break
    def line(i, a, b):
        out = b''
        for s, x in starts[i]:
            if a <= s < b: out = out.ljust(s - a) + x.encode(ENC)
        return MKS[i].encode(ENC) + b' ' + out + (b'' if rng.random() < .7 else b'  ')
    out, done = [], False
    bs = [0] + sorted(set(breaks)) + [10 ** 9]
    for f in fields:
        i = f['m']
        if i in 'tmgp' and f['full']:
            if breaks:
                if not done:
                    for a, b in zip(bs, bs[1:]):
                        out += [line(j, a, b) for j in inter]
                        if rng.random() < .5: out.append(b'')
                    done = True
            else: out.append(line(i, 0, 10 ** 9))
        elif not f['full']: out.append(MKS[i].encode(ENC) + rng.choice([b'', b' ', b'   ']))
        else: out.append(MKS[i].encode(ENC) + b' ' + f['text'].encode(ENC))
    return out


def emit(rs, rng, mks=MK, enc='utf-8'):
    global ENC, MKS
    ENC, MKS = enc, mks
    out, cur = [], None
    if rng.random() < .4: out += [b'\\_sh v3.0 400 Text', b'']
    for r in rs:
        if r['id'] != cur:
            if r['id'] or cur: out.append(MKS['id'].encode(ENC) + b' ' + (r['id'][0].encode(ENC) if r['id'] else b''))
            cur = r['id']
        if r['key']: out.append(MKS['ref'].encode(ENC) + b' ' + r['key'][0].encode(ENC))
        elif not r['id']: pass
        ls = layout(r['fields'], rng)
        if r['bad']: ls.insert(rng.randint(0, len(ls)), b'\\err')
        elif rng.random() < .05: ls.insert(rng.randint(0, len(ls)), b'\\warn')
        if not ls: ls = [b'\\x z']
        out += ls
        if rng.random() < .7: out.append(b'')
    return b'\n'.join(out) + b'\n'


def rconfig(rng, o):
    """(configuration, markers, tier names) with the same meaning as the
    default one for o."""
    cfg, mks, tiers = {}, MK, {}
    if rng.random() < .4:
        pool = ['\\t', '\\m', '\\g', '\\p', '\\f', '\\x', '\\id', '\\ref', '\\tx', '\\mb', '\\ge', '\\ps', '\\ft', '\\nt', '\\_x', '\\a.b', '\\té']
        mks = dict(zip(MK, rng.sample(pool, len(MK))))
        cfg['record_markers'] = [mks['id'], mks['ref']]
        cfg['igt_attribute_map'] = {mks['id']: 'corpus-id'}
        cfg['tier_map'] = {mks[f]: TIER[f] for f in rng.sample(sorted(TIER), 5)}
    if rng.random() < .4:
        tiers = dict(zip(['p', 'w', 'm', 'g', 'pos', 't'], rng.sample(['p', 'w', 'm', 'g', 'pos', 't', 'words-', 'Phr_', 'mor.ph', 'gl-x', 'x'], 6)))
        n = lambda x: tiers[x]
        inter = ['w', 'm', 'g', 'pos']
        cfg['tier_map'] = {m: n(t) for m, t in cfg.get('tier_map', {MK[f]: TIER[f] for f in TIER}).items()}
        if o['phrase']: cfg['make_phrase_tier'] = [n('w'), n('p')]
        cfg['tier_types'] = {n(t): dict(type=y, **(dict(interlinear=True) if t in inter else {})) for t, y in
                             dict(p='phrases', w='words', m='morphemes', g='glosses', pos='pos', t='translations').items()}
        cfg['alignments'] = {n(a): [r, n(b)] for a, r, b in (('w', 'segmentation', 'p'), ('m', 'segmentation', 'w'), ('g', 'alignment', 'm'), ('pos', 'alignment', 'm'), ('t', 'alignment', 'p'))}
    if o['loose']:
        al = cfg.setdefault('alignments', {'w': ['segmentation', 'p'], 'm': ['segmentation', 'w'], 'g': ['alignment', 'm'], 'pos': ['alignment', 'm'], 't': ['alignment', 'p']})
        for f in o['loose']: al[tiers.get(TIER[f], TIER[f])][0] = None
    if o['note']: cfg['igt_attribute_map'] = dict(cfg.get('igt_attribute_map', {MK['id']: 'corpus-id'}), **{mks['x']: 'note'})
    if not o['phrase']: cfg['make_phrase_tier'] = None
    if not cfg and rng.random() < .3: cfg = rng.choice([{}, {'error_recovery_method': 'ratio'}, {'record_markers': ['\\id', '\\ref']}])
    elif not cfg: cfg = None
    return cfg, mks, tiers


def importfile(rs, o, rng, enc='utf-8'):
    """(ok, igts, odd) of an import."""
    cfg, mks, tiers = rconfig(rng, o)
    data = emit(rs, rng, mks, enc)
    tmp = tempfile.mkdtemp(dir=SCRATCH)
    try:
        p, q = os.path.join(tmp, 'in.txt'), os.path.join(tmp, 'out.xml')
        with open(p, 'wb') as f: f.write(data)
        if enc != 'utf-8' or rng.random() < .3:
            kw = {} if enc == 'utf-8' else dict(encoding=enc)
            if cfg is not None and rng.random() < .2:   # options of another import, changed
                opts = {}
                quiet(lambda: toolbox.xigt_import(p, q, opts, **kw))
                if os.path.exists(q): os.unlink(q)
                opts.update(cfg)
                cfg = opts
            t, v = quiet(lambda: toolbox.xigt_import(p, q, cfg, **kw))
            if t == 'ok' and rng.random() < .2:     # again with the same options
                os.unlink(q)
                t, v = quiet(lambda: toolbox.xigt_import(p, q, cfg, **kw))
        else:
            args = ['-i', p, '-o', q] + (['-f', 'toolbox'] if rng.random() < .5 else [])
            if cfg is not None:
                with open(os.path.join(tmp, 'c.json'), 'w') as f: json.dump(cfg, f)
                args += ['-c', os.path.join(tmp, 'c.json')]
            t, v = quiet(front.main, xigt_import, args)
        if t != 'ok': return asc('%s: %r' % (t, v))[:300], [], ''
        with open(p, 'rb') as f:
            odd = '' if f.read() == data else 'input changed'
        t, xc = quiet(xigtxml.load, q)
        if t != 'ok': return asc('unreadable: %r' % (v,))[:300], [], ''
        igts, o2 = view(xc, {v: k for k, v in tiers.items()})
        return '', igts, odd or o2
    finally: shutil.rmtree(tmp)


def view(xc, names={}):
    """The igts, tiers called by their default names."""
    odd = []
    known = sorted(names, key=len, reverse=True)
    def tn(x): return names.get(x, '?' + x if names else x)
    def iid(t, x):      # a name and a number, perhaps a span
        if not names or not t: return x
        return names[t] + x[len(t):] if t in names and re.match(re.escape(t) + r'\d+(\[|$)', x) else '?' + x
    igts = []
    for g in xc:
        tiers = []
        if g.metadata or g.type or g.namespace: odd.append('igt')
        for t in g:
            if t.metadata or len(t.attributes) > 1: odd.append('tier')
            items = []
            ras = list(t.attributes.items())
            for i in t:
                if i.type or list(i.attributes) != [a for a, _ in ras]: odd.append('item ' + repr(i.attributes))
                items.append(dict(id=cps(iid(t.id, i.id or '')), text=cps(i.text or ''), ref=[cps(iid(t.attributes[a], v)) for a, v in i.attributes.items() if a in t.attributes]))
            tiers.append(dict(id=cps(tn(t.id or '')), type=asc(t.type or '?'), ra=[dict(a=asc(a), t=cps(tn(v))) for a, v in ras], items=items))
        igts.append(dict(id=cps(g.id or ''), at=[[cps(a), cps(v)] for a, v in g.attributes.items()], tiers=tiers))
    return igts, asc(', '.join(odd))[:200]


# ---------------------------------------------------------------- generated

def unrec(r, n):
    f = [F(x['m'], x['full'], map(uncps, x['words']), [map(uncps, s) for s in x['segs']], uncps(x['text'])) for x in r['fields']]
    return dict(id=[], key=['k%d' % n], bad=False, fields=f)


def norm(g):
    return json.dumps(dict(g, id=0, at=sorted(g['at'])), sort_keys=True)


def gen(x):
    """A batch of generated records with the same options in one file."""
    cs, k = x
    rng = random.Random(k)
    rs = [unrec(c['c']['r'], n) for n, c in enumerate(cs)]
    o = cs[0]['c']['o']
    ok, igts, odd = importfile(rs, o, rng)
    bad = []
    if ok or odd or len(igts) != len(cs):
        if len(cs) == 1: return [('record %s: %s, %s' % (json.dumps(rs[0], ensure_ascii=False), ok, odd or igts), dict(t='gen', c=cs[0], k=k))]
        for c in cs:
            b = gen(([c], k))
            if b: return b
        return [('records together: %s, %s, %d of %d igts' % (ok, odd, len(igts), len(cs)), dict(t='gens', cs=cs, k=k))]
    for c, r, g in zip(cs, rs, igts):
        if norm(g) != norm(c['out']):
            bad.append(('record %s: imported %s, specified %s' % (json.dumps(r, ensure_ascii=False), tell(g), tell(c['out'])), dict(t='gen', c=c, k=k)))
    return bad


def tell(g):
    return ' '.join('%s(%s %s: %s)' % (uncps(t['id']), t['type'], [(r['a'], uncps(r['t'])) for r in t['ra']],
                                      ', '.join('%s=%s%s' % (uncps(i['id']), uncps(i['text']), [uncps(r) for r in i['ref']]) for i in t['items'])) for t in g['tiers'])[:1500]


# ------------------------------------------------------------------- random

def rword(rng):
    return ''.join(rng.choice('aabbckzAÉé-日=' if rng.random() < .9 else 'ßİ') for _ in range(rng.choice([1, 1, 2, 3, 4, 6])))


def rseg(rng, w):
    """Morphemes of a word, mostly by spelling."""
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    if rng.random() < .25: return [rword(rng) for _ in range(n)]
    s = w.lower() if rng.random() < .7 else w
    cuts = sorted(rng.sample(range(1, len(s)), min(n, len(s)) - 1)) if n > 1 and len(s) > 1 else []
    ms = [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])] if n else []
    ms = [rng.choice(['-', '', '', '=', '.']) * (k > 0) + x for k, x in enumerate(ms)]
    if ms and rng.random() < .2: ms[rng.randrange(len(ms))] = rng.choice(['x', '-', '--', ms[0] + '-', rword(rng)])
    return [x for x in ms if x]


def rrec(rng, k):
    words = [rword(rng) for _ in range(rng.choice([1, 1, 2, 3, 5, 8]))]
    segs = [rseg(rng, w) for w in words]
    fs = []
    gl = lambda: [[rng.choice(['1', 'PST', 'dog', '日', 'a.b', '-x']) for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3]))] for s in segs for _ in s]
    r = rng.random()
    if r < .8:
        fs = [F('t', words=words)]
        if any(segs):
            if rng.random() < .85: fs.append(F('m', segs=segs))
            if len(fs) > 1:
                for m in 'gp':
                    g = gl()
                    if rng.random() < .8 and any(g): fs.append(F(m, segs=g))
        if len(fs) == 4 and rng.random() < .3: fs[2], fs[3] = fs[3], fs[2]
    elif r < .9:
        fs = [F('t', words=words), F('m', False), F('g', False)][:rng.choice([1, 2, 3])]
        if rng.random() < .3: fs[0] = F('t', False)
    else:
        if any(segs):
            g = gl()
            fs = [F('m', segs=[[x for s in segs for x in s]])] + ([F('g', segs=g)] if any(g) else [])
    for m in ('f', 'x'):
        if rng.random() < .7:
            fs.insert(rng.randint(0, len(fs)) if rng.random() < .3 else len(fs),
                      F(m, False) if rng.random() < .1 else F(m, text=' '.join(rng.choice(['The', 'dog', "'été'", 'x.', '日本', '<&>', '\\no']) for _ in range(rng.choice([1, 2, 5])))))
    if not fs: fs = [F('x', text='y')]
    return fs


def rnd(seed):
    rng = random.Random(seed)
    rs, cur, used = [], [], set()
    for k in range(rng.choice([0, 1, 2, 3, 5, 8])):
        if rng.random() < .3: cur = [rng.choice(['text%d', 'T %d', 'é%d', '%d']) % k]
        if rng.random() < .1 and cur and (not rs or rs[-1]['id'] != cur):
            rs.append(dict(id=list(cur), key=[], bad=False, fields=[F('x', text='about')]))
            continue
        key = rng.choice(['%d', '%d', 'r%d', 'A.%d', 'x-%d', 'é%d', '日%d', '_%d', '.%d', 'igt-%d']) % k
        rs.append(dict(id=list(cur), key=[key], bad=rng.random() < .05, fields=rrec(rng, k)))
    o = dict(phrase=rng.random() < .8, note=rng.random() < .2, loose=rng.sample('tmgpf', rng.choice([1, 2, 5])) if rng.random() < .15 else [])
    enc = 'utf-8'
    if rng.random() < .25:
        try: json.dumps(rs, ensure_ascii=False).encode('latin-1'); enc = 'latin-1'
        except UnicodeEncodeError: pass
    ok, igts, odd = importfile(rs, o, rng, enc)
    enc = [dict(id=[cps(x) for x in r['id']], key=[cps(x) for x in r['key']], bad=r['bad'],
                fields=[dict(f, words=[cps(w) for w in f['words']], segs=[[cps(w) for w in s] for s in f['segs']], text=cps(f['text'])) for f in r['fields']]) for r in rs]
    return dict(rs=enc, o=o, ok=ok, igts=igts, odd=odd, src=dict(t='rnd', seed=seed))


def canary(c):
    if c['ok'] or c['odd'] or not c['igts']: return None
    for t in c['igts'][0]['tiers']:
        if len(t['items']) > 1:
            t['items'].pop(); return c


def judge(ctx, cs):
    keep = [{k: v for k, v in c.items() if k != 'src'} for c in cs]
    for i, m in validate_cases(ctx, 'Trace_Toolbox', keep, canary, per=4, timeout=1200):
        c = cs[i]
        ctx.violation('%s: %s; imported %s; specified %s' % (json.dumps(c['src']), m['bad'], ' || '.join(uncps(g['id']) + ' ' + tell(g) for g in c['igts'])[:1500],
                                                             ' || '.join(uncps(g['id']) + ' ' + tell(g) for g in m['exp'])[:1500]), c['src'])


def run(ctx):
    global SCRATCH
    SCRATCH = ctx.scratch
    cases = []
    for mode in ('spans', 'shape'):
        run_tlc(ctx, 'MC_Toolbox', 'INIT Init\nNEXT Next\nINVARIANTS Unique Kept Spanned Exact\nCONSTRAINT Emit\n' + consts(Mode=mode, MaxM=ctx.n(3, 4)),
                collect=lambda t, p: cases.append(p), timeout=2500, heap='10g')
    if len(cases) < 1000: raise MachineryError('too few cases')
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.notes['generated_cases'] = len(cases)
    ctx.replayed += len(cases)
    batches = []
    for o in sorted(set(json.dumps(c['c']['o'], sort_keys=True) for c in cases)):
        xs = [c for c in cases if json.dumps(c['c']['o'], sort_keys=True) == o]
        batches += [(xs[i:i + 60], '%s/%s/%d' % (ctx.seed, o, i)) for i in range(0, len(xs), 60)]
    for r in pmap(gen, batches):
        for v in r: ctx.violation(*v)
    cs = pmap(rnd, ['I02%s-%d' % (ctx.seed, k) for k in range(ctx.n(2500, 25000))])
    ctx.sample(dict(kind='import', igts=[tell(g) for g in cs[5]['igts']][:3]))
    judge(ctx, cs)


def replay(ctx, case):
    global SCRATCH
    SCRATCH = ctx.scratch
    if case['t'] != 'rnd':
        ctx.replayed += 1
        for v in gen((case['cs'] if case['t'] == 'gens' else [case['c']], case['k'])): ctx.violation(*v)
    else: judge(ctx, [rnd(case['seed'])] + [rnd('x%d' % k) for k in range(60)])
