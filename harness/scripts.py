"""T01 T02 T03 T04: the command line scripts."""
import contextlib, copy, io, json, logging, os, random, re, shutil, tempfile
from lib.core import MachineryError, asc, call, consts, cps, pmap, run_tlc, uncps, validate_cases
from xigt.codecs import xigtxml
from xigt.scripts import xigt_partition, xigt_sort, xigt_validate, xigt_query
from harness import codec, front, xpath
from harness.docs import enc, node, walk, URIS
from harness.xpath import flat, render, rpath

SCRATCH = None
S = lambda ax, name='', pre='', **k: dict(dict(ax=ax, pre=pre, name=name, args=[], alts=[], preds=[]), **k)
P = lambda *steps: dict(abs=False, steps=list(steps))
EQ = lambda path, v: dict(p=path, cmp='=', val=cps(v))


def cli(mod, args, limit=20):
    """(kind, status, output, logged): a run of a script in this process."""
    out, err = io.StringIO(), io.StringIO()
    def go():
        for h in logging.root.handlers[:]: logging.root.removeHandler(h)
        logging.root.setLevel(logging.WARNING)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            front.main(mod, args)
    t, v = call(go, limit=limit)
    for h in logging.root.handlers[:]: logging.root.removeHandler(h)
    logging.root.setLevel(logging.WARNING)
    if t == 'ok': return '', 0, out.getvalue(), err.getvalue()
    if t == 'err' and isinstance(v, SystemExit):
        c = v.code
        return '', 0 if c in (None, 0) else c if isinstance(c, int) else 1, out.getvalue(), err.getvalue()
    return asc('%s: %r' % (t, v))[:300], 1, out.getvalue(), err.getvalue()


def both(mod, args, limit=20):
    """As cli, with output and log in one text."""
    out = io.StringIO()
    def go():
        for h in logging.root.handlers[:]: logging.root.removeHandler(h)
        logging.root.setLevel(logging.WARNING)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            front.main(mod, args)
    t, v = call(go, limit=limit)
    for h in logging.root.handlers[:]: logging.root.removeHandler(h)
    logging.root.setLevel(logging.WARNING)
    if t == 'err' and isinstance(v, SystemExit): return '', 0 if v.code in (None, 0) else 1, out.getvalue()
    return ('', 0, out.getvalue()) if t == 'ok' else (asc('%s: %r' % (t, v))[:300], 1, out.getvalue())


# -------------------------------------------------------------- documents

def xmldoc(rng, fn, slash=True):
    d, pres = xpath.rdoc(rng, fn)
    for n in walk(d):
        if n['k'] not in ('child',): n['ns'] = []
        if n['text'] and not n['text'][0].strip(): n['text'] = []
        if not slash:
            n['attrs'] = [[k, v.replace('/', ':')] for k, v in n['attrs']]
            n['text'] = [t.replace('/', ':') for t in n['text']]
            for f in ('id', 'type'): n[f] = [t.replace('/', ':') for t in n[f]]
        if n['map'] and n is not d:
            n['map'] = [sorted([list(x) for x in dict(list(map(tuple, d['map'][0])) + list(map(tuple, n['map'][0]))).items()])]
    # (namespace tables are complete and children of an own table use what is in scope)
    return codec.uniq(d), pres


def load(d, rng):
    """(text, objects' nodes, objects) of a document as the scripts read it."""
    text = codec.encoded(d, rng)
    o = xigtxml.loads(text)
    f, objs = flat(d, o)
    return text, f, objs


def write(p, text):
    with open(p, 'wb') as f: f.write(text if isinstance(text, bytes) else text.encode('utf-8'))


def read(p):
    with open(p, 'rb') as f: return f.read()


def noch(o):
    """A node without contained objects and prefix tables."""
    def bare(n): return dict(n, map=[], md=[bare(m) for m in n['md']], ch=[bare(c) for c in n['ch']])
    n = bare(enc(o))
    if n['k'] in ('corpus', 'igt', 'tier'): n['ch'] = []
    return n


def bare(n): return dict(n, map=[], md=[bare(m) for m in n['md']], ch=[bare(c) for c in n['ch']])


def mapped(o, p):
    """Every prefix of o has its meaning in p (and below)."""
    if any(p.nsmap.get(k) != v for k, v in o.nsmap.items()): return False
    if hasattr(o, 'metadata') and not all(mapped(a, b) for a, b in zip(o.metadata, p.metadata)): return False
    return not isinstance(o, list) or all(mapped(a, b) for a, b in zip(list(o), list(p)))


def setattr_(n, k, v):
    n['attrs'] = [a for a in n['attrs'] if a[0] != k] + [[k, v]]


# -------------------------------------------------------------- partition

def partition(docs, path, pathtext, default, exists, rng, order=None):
    """Run it; docs: [(text, nodes, objects)]."""
    d = tempfile.mkdtemp(dir=SCRATCH)
    try:
        files = []
        for k, (text, f, o) in enumerate(docs):
            p = os.path.join(d, rng.choice(['in%d.xml', 'b%d x.xml', 'é%d.xml']) % k)
            write(p, text); files.append(p)
        before = [read(p) for p in files]
        out = os.path.join(d, rng.choice(['out', 'out.d', 'ö']))
        if exists == 'dir':
            os.mkdir(out)
            if rng.random() < .7: write(os.path.join(out, 'a.xml'), 'old')
        elif exists == 'file': write(out, 'old')
        elif exists == 'deep': out = os.path.join(d, 'no', 'where')
        def snap():
            if os.path.isdir(out): return sorted((n, read(os.path.join(out, n))) for n in os.listdir(out))
            return read(out) if os.path.exists(out) else None
        was = snap()
        args = ['--key-path=' + pathtext] + (['--default-key=' + default] if default != '---' or rng.random() < .3 else []) + [out] + files
        if rng.random() < .3: args = args[-len(files) - 1:] + args[:-len(files) - 1] if files else args
        bad, status, _, _ = cli(xigt_partition, args)
        same = []
        if [read(p) for p in files] != before: same.append('inputs changed')
        if exists and snap() != was: same.append('existing output touched')
        got = []
        if not exists and os.path.isdir(out):
            orig = {}
            for k, (text, f, o) in enumerate(docs):
                for j, g in enumerate(o[0]): orig[g.attributes['nr']] = (k + 1, j + 1, g)
            for n in sorted(os.listdir(out)):
                if not n.endswith('.xml'): same.append('file name'); continue
                t, xc = call(xigtxml.loads, read(os.path.join(out, n)), limit=20)
                if t != 'ok': same.append('unreadable output'); continue
                igts = []
                for g in xc:
                    w = orig.get(g.attributes.get('nr'))
                    if w is None: igts.append([0, 0]); continue
                    igts.append([w[0], w[1]])
                    if bare(enc(g)) != bare(enc(w[2])) or not (g == w[2]): same.append('igt changed')
                    elif not mapped(w[2], g): same.append('prefixes lost')
                got.append(dict(name=cps(n[:-4]), igts=igts))
        return dict(t='part', docs=[f for _, f, _ in docs], p=path, exists=bool(exists), ok=bad, status=status, out=got, same=', '.join(sorted(set(same))),
                    **{'def': cps(default)})
    finally: shutil.rmtree(d)


def prep(d, k):
    """Numbers on igts; ids distinct across files."""
    for j, g in enumerate(d['ch']):
        setattr_(g, 'nr', '%d-%d' % (k, j))
        if g['id']: g['id'] = ['f%d%s' % (k, g['id'][0])]
    return d


def looks_out(p):
    """Paths from an igt that may walk to other igts."""
    ss = p['steps']
    if p['abs']: return True
    for i, s in enumerate(ss):
        if s['ax'] == 'parent' and (i + 1 < len(ss) and ss[i + 1]['ax'] not in ('attr',)): return True
        if any(map(looks_out, s['alts'])) or any(looks_out(q['p']) for q in s['preds']): return True
        if s['ax'] == 'group' and i + 1 < len(ss) and any(t['ax'] == 'parent' for a in s['alts'] for t in a['steps']): return True
    return False


def rnd01(seed):
    rng = random.Random(seed)
    docs = []
    for k in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        d, pres = xmldoc(rng, rng.random() < .3, slash=False)
        for g in d['ch']:
            if rng.random() < .7: setattr_(g, 'k', rng.choice(['a', 'b', 'a:b', 'a-b', '---', ':::', 'é', 'K K', 'x.y', '1', '']))
        docs.append(load(prep(d, k), rng))
    for _ in range(30):
        r = rng.random()
        if r < .45: p = P(S('attr', 'k'))
        elif r < .5: p = P(S('attr', rng.choice(['id', 'type', 'v', 'lang'])))
        elif r < .55: p = P(S('parent'), S('attr', rng.choice(['id', 'v', 'lang'])))
        elif r < .62: p = P(S('child', 'metadata'), S('desc', 'subject', pre=rng.choice(['', 'dc'])), S('attr', '*' if rng.random() < .2 else 'v'))
        elif r < .7: p = P(S('child', 'tier', preds=[EQ(P(S('attr', 'type')), 'words')]), S('child', 'item'), S('func', rng.choice(['text', 'value'])))
        else: p = rpath(rng, ['dc', 'p'], rng.random() < .3, 1, abs_=False)
        if p['steps'][-1]['ax'] in ('attr', 'func') and not looks_out(p): break
    # '@*' may give any attribute first; fine, the order is that of the file
    text = render(p, rng)
    exists = rng.choice([''] * 14 + ['dir', 'file', 'deep'])
    default = rng.choice(['---', '---', 'none', 'a:b', 'a', 'ü'])
    return dict(partition(docs, p, text, default, exists, rng), src=dict(t='rnd', seed=seed, path=text))


def gen01(x):
    c, k, seed = x
    rng = random.Random('%s/%s' % (seed, k))
    docs = []
    for j, ks in enumerate(c['c']['f']):
        d = node('corpus', map={}, ch=[node('igt', id='x%d' % i, attrs={'k': uncps(v[0])} if v else {}) for i, v in enumerate(ks)])
        docs.append(load(prep(d, j), rng))
    p = P(S('attr', 'k'))
    r = partition(docs, p, '@k', uncps(c['c']['def']), '', rng)
    exp = sorted([asc(uncps(o['name'])), o['igts']] for o in c['out']['p'])
    got = sorted([asc(uncps(o['name'])), o['igts']] for o in r['out'])
    if r['ok'] or r['status'] or r['same'] or exp != got:
        return ('keys %s, default %r: %s wrote %s, specified %s' % ([[uncps(v[0]) if v else None for v in f] for f in c['c']['f']], uncps(c['c']['def']), r['ok'] or r['same'] or '', got, exp),
                dict(t='gen', c=c, k=k, seed=seed))


# ------------------------------------------------------------------- sort

def number(d):
    for i, n in enumerate(walk(d), 1):
        if n['k'] in ('igt', 'tier', 'item'): setattr_(n, 'nr', str(i))


def arranged(xc, f, objs):
    """(new order of the contained objects by node, complaint)"""
    ch, bad = [list(e['ch']) for e in f], []
    if noch(xc) != noch(objs[0]): bad.append('corpus changed')
    def go(o, i):
        order = []
        for c in o:
            k = c.attributes.get('nr', '')
            j = int(k) if k.isdigit() and int(k) <= len(objs) else 0
            order.append(j)
            if j == 0: bad.append('foreign object'); continue
            if noch(c) != noch(objs[j - 1]): bad.append('object changed')
            if f[j - 1]['par'] != i: bad.append('object moved')
            if isinstance(c, list): go(c, j)
        ch[i - 1] = order
    go(xc, 1)
    return ch, ', '.join(sorted(set(bad)))


def sort(text, f, objs, o, texts, deps, rng):
    d = tempfile.mkdtemp(dir=SCRATCH)
    try:
        p, q = os.path.join(d, 'a.xml'), os.path.join(d, 'b.xml')
        write(p, text); write(q, text)
        args = []
        for lv in ('igt', 'tier', 'item'):
            for t in texts[lv]: args.append('--%s-key=%s' % (lv, t))
        if deps: args.append('--tier-deps=' + deps)
        bad, status, out, _ = cli(xigt_sort, args + [p])
        r = dict(t='sort', doc=f, o=o, ok=bad or ('exit %s' % status if status else ''), ch=[], same='')
        if r['ok']: return r
        same = []
        if read(p) != text: same.append('input changed')
        t, xc = call(xigtxml.loads, out, limit=20)
        if t != 'ok': r['ok'] = 'unreadable output'; return r
        r['ch'], b = arranged(xc, f, objs)
        if b: same.append(b)
        bad, status, _, _ = cli(xigt_sort, ['--in-place'] + args + [q])
        t, xq = call(xigtxml.loads, read(q), limit=20)
        if bad or status or t != 'ok': same.append('in place: failed ' + bad)
        elif enc(xq) != enc(xc): same.append('in place: another result')
        r['same'] = ', '.join(same)
        return r
    finally: shutil.rmtree(d)


NUMS = ['1', '2', '10', '01', '010', 'a1', 'a2', 'a10', 'a1b', 'a', 'B', 'é', '1.5', '1.10', 'x-2-y-11', '99999999999999999999', '100000000000000000000', '', ' 1', '-1', '1-2', 'a 1']


def rkey(rng, lv):
    r = rng.random()
    kids = dict(igt='tier', tier='item')
    if r < .35: return P(S('attr', rng.choice(['sk', 'sk2'])))
    if r < .5: return P(S('attr', rng.choice(['id', 'type', 'v', 'lang', 'doc-id', 'sk'])))
    if lv == 'item':
        if r < .7: return P(S('func', rng.choice(['text', 'value'])))
        if r < .78: return P(S('func', rng.choice(['referent', 'referrer'])), S('attr', rng.choice(['id', 'sk'])))
    else:
        if r < .62: return P(S('child', kids[lv]), S('attr', rng.choice(['id', 'sk', 'sk2'])))
        if r < .7: return P(S('self'), S('desc', 'item'), S('func', rng.choice(['text', 'value'])))
        if r < .78: return P(S('child', 'metadata'), S('child', 'meta'), S('attr', 'v'))
    if r < .82: return P(S('parent'), S('child', dict(igt='igt', tier='tier', item='item')[lv]), S('attr', 'sk'))
    return rpath(rng, ['dc', 'p', 'q'], rng.random() < .5, 1)


def rnd02(seed):
    rng = random.Random(seed)
    d, pres = xmldoc(rng, rng.random() < .5)
    if rng.random() < .3:
        idless = rng.random() < .4   # nothing can be looked up
        for g in d['ch'][:1]: g['ch'] += [node('tier', id='zz%d' % k if rng.random() < .7 else None, ch=[node('item', id=None if idless else 'zz%di%d' % (k, j), text='q%d' % j) for j in range(rng.randint(0, 6))]) for k in range(rng.randint(0, 5))]
    if rng.random() < .2: d['ch'] += [node('igt', ch=[node('tier', ch=[node('item', text='z%d' % j) for j in range(rng.randint(0, 3))]) for _ in range(rng.randint(0, 3))]) for _ in range(rng.randint(1, 3))]
    pool = rng.sample(NUMS, rng.choice([3, 6, len(NUMS)]))
    for n in walk(d):
        if n['k'] in ('igt', 'tier', 'item'):
            for a in ('sk', 'sk2'):
                if rng.random() < .8: setattr_(n, a, rng.choice(pool))
    number(d)
    text, f, objs = load(d, rng)
    o = dict(igt=[], tier=[], item=[], deps=[])
    for lv in ('igt', 'tier', 'item'):
        if rng.random() < .5: o[lv] = [rkey(rng, lv) for _ in range(rng.choice([1, 1, 2, 3]))]
    deps = ''
    if not o['tier'] and rng.random() < .4:
        ras = rng.sample(['alignment', 'content', 'segmentation', 'ref'], rng.choice([1, 2, 3]))
        o['deps'] = [ras]
        deps = rng.choice([',', ', ', ' ,']).join(ras)
    texts = {lv: [render(p, rng) for p in o[lv]] for lv in ('igt', 'tier', 'item')}
    return dict(sort(text, f, objs, o, texts, deps, rng), src=dict(t='rnd', seed=seed, keys=texts, deps=deps))


def gen02(x):
    c, k, seed = x
    rng = random.Random('%s/%s' % (seed, k))
    lv = ('igt', 'tier', 'item')[k % 3]
    ks = c['c']['ks']
    names = ['ka', 'kb']
    n = len(ks[0]) if ks else 1
    objs = [node(lv, id='x%d' % i, attrs={names[j]: uncps(v[0]) for j, v in enumerate(key) if v}) for i, key in enumerate(ks)]
    for up in {'igt': ['corpus'], 'tier': ['igt', 'corpus'], 'item': ['tier', 'igt', 'corpus']}[lv]:
        objs = [node(up, id='u', ch=objs, map={} if up == 'corpus' else None)]
    d = objs[0]
    number(d)
    text, f, ob = load(d, rng)
    o = dict(igt=[], tier=[], item=[], deps=[])
    o[lv] = [P(S('attr', names[j])) for j in range(n)]
    texts = {l: [render(p) for p in o[l]] for l in ('igt', 'tier', 'item')}
    r = sort(text, f, ob, o, texts, '', rng)
    i = next(j for j, e in enumerate(f) if e['k'] == {'igt': 'xigtcorpus', 'tier': 'igt', 'item': 'tier'}[lv])
    exp = [f[i]['ch'][j - 1] for j in c['out']['o']]
    if r['ok'] or r['same'] or r['ch'][i] != exp:
        return ('%s keys %s: %s order %s, specified %s' % (lv, [[uncps(v[0]) if v else None for v in key] for key in ks], r['ok'] or r['same'], r['ch'][i:i + 1], exp), dict(t='gen', c=c, k=k, seed=seed))


# --------------------------------------------------------------- validate

RA = ['alignment', 'content', 'segmentation']
HEAD = re.compile(r'^ *(corpus|igt|tier|item) (\d+) (?:\(id: "(.*)"\))?$')
RULES = [('specify an id', 'id'), ('be unique within', 'unique'), ('specify a type', 'type'), ('Reference attributes on', 'tieratt'),
         ('The reference attribute', 'tierref'), ('alignment expression', 'itemref'), ('select spans within', 'inside'), ('NOT overlap', 'overlap')]


def report(out, docs):
    """Per file [recs, heads] of a printed report."""
    rep = [dict(recs=[], heads=[]) for _ in docs]
    cur, path = None, []
    for line in out.split('\n'):
        line = re.sub('\x1b\\[[0-9;]*m', '', line)
        m = HEAD.match(line)
        if m:
            lv = ['corpus', 'igt', 'tier', 'item'].index(m.group(1))
            i = int(m.group(2))
            if lv == 0: cur, path = i, [1]
            else:
                path = path[:lv]
                ch = docs[cur][path[-1] - 1]['ch'] if path[-1] > 0 else []
                path.append(ch[i] if i < len(ch) else -1)
            rep[cur]['heads'].append(path[-1])
            continue
        m = re.match(r'^ +\* (.*)$', line)
        if m and cur is not None:
            rule = next((r for t, r in RULES if t in m.group(1)), 'other')
            rep[cur]['recs'].append(dict(o=path[-1], r=rule))
    return rep


def validate(files, args, level, rng):
    """files: [(bytes, nodes or None, wild)]"""
    d = tempfile.mkdtemp(dir=SCRATCH)
    try:
        ps = []
        for k, (data, f, w) in enumerate(files):
            p = os.path.join(d, 'f%d.xml' % k)
            with open(p, 'wb') as h: h.write(data)
            ps.append(p)
        bad, status, out = both(xigt_validate, args + ps)
        same = '' if all(read(p) == x[0] for p, x in zip(ps, files)) else 'files changed'
        blank = [dict(k='xigtcorpus', par=0, name='', nameCps=[], ns=[], id=[], type=[], text=[], at=[], md=[], ch=[], map=[])]
        docs = [f or blank for _, f, _ in files]
        rep = [dict(recs=[], heads=[]) for _ in docs]
        if not bad:
            t, v = call(report, out, docs)
            if t == 'ok': rep = v
            else: bad = 'unreadable report'
        return dict(t='valid', files=[dict(doc=x, wild=w, loads=f is not None) for x, (_, f, w) in zip(docs, files)], level=level, ok=bad, status=status, rep=rep, same=same), out
    finally: shutil.rmtree(d)


LEVELS = [([], 40), (['-v'], 30), (['-vv'], 20), (['-vv'], 20), (['-q'], 60), (['-v', '-v', '-v'], 10), (['--color', '-v'], 30)]


def rexpr(rng, ids, wild):
    if wild and rng.random() < .3: return rng.choice(['a[', '[0:1]', 'a0[1.5:2]', '+', '{x}', 'é', 'a0[1:]', 'a0 , , a1', ':', 'a0[0:1][1:2]'])
    e = ''
    for j in range(rng.choice([1, 1, 1, 2, 2, 3])):
        e += (rng.choice([',', '+', ' ']) if j else '') + (rng.choice(ids) if ids and rng.random() < .85 else rng.choice(['zz', 'a0', 'b1', 't0']))
        if rng.random() < .5:
            sp = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                a = rng.choice([0, 0, 1, 2, 3, 4])
                b = a + rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < .93 else rng.choice([0, -1, 10 ** 7])
                if rng.random() < .03: a = -1
                sp.append('%d:%d' % (a, b))
            e += '[' + rng.choice([',', '+']).join(sp) + ']'
    return e


def vdoc(rng, wild):
    igts, ids = [], ['i0', 'i1', 'i2', 'i3']
    p = rng.choice([0, .03, .12, .3])       # how much is wrong
    q = lambda x=1.0: rng.random() < p * x
    many = rng.random() < .04
    up = rng.random() < .2
    for gi in range(12 if many else rng.choice([0, 1, 1, 1, 2, 3])):
        tiers, used = [], set()
        for ti in range(rng.choice([0, 1, 2] if many else [0, 1, 2, 3, 4, 5])):
            tid = ['t%d' % ti if not ti or rng.random() < .95 else 'T%d' % (ti - 1)]
            if q(): tid = rng.choice([[], ['t{x}'], ['t{%d}' % ti], ['t 0'], ['a0']])
            if tid and tid[0] in used: tid = []
            used.update(tid)
            at = {}
            prev = [t for t in tiers if t['id']]
            for a in RA:
                if prev and rng.random() < .45: at[a] = rng.choice(prev)['id'][0]
                if q(.4): at[a] = rng.choice(['nope', '', 't0 t1', 'É', ' t0'])
                if q(.4) and (a == 'alignment' or wild): at[a] = rng.choice(['t0', 't1', 't%d' % ti, '0', '1', '-1'])
            items, iu = [], set()
            letter = 'abcdef'[ti] if not up else 'ABCDEF'[ti]
            for ii in range(rng.choice([0, 1, 2, 3, 4]) if rng.random() < .98 else 14):
                iid = ['%s%d' % (letter, ii)]
                if ii and rng.random() < .06: iid = ['%s%d' % (letter.swapcase(), ii - 1)]   # not the same id
                if q(): iid = rng.choice([[], ['a0'], ['a1'], ['b0'], ['t0']])
                if iid and iid[0] in iu: iid = []
                iu.update(iid)
                ia = {}
                for a in RA:
                    tgt = next((t for t in tiers if t['id'] and t['id'][0] == at.get(a)), None)
                    if (a in at and rng.random() < .75) or q(.3):
                        es = [x['id'][0] for x in tgt['ch'] if x['id'] and x['id'][0]] if tgt else []
                        if not es or q(.5): es = es + ['a0', 'b0', 'zz']
                        ia[a] = rexpr(rng, es, wild or (a == 'alignment' and q(.5)))
                        if p < .1 and '[' in ia[a] and rng.random() < .7: ia[a] = ia[a][:ia[a].index('[')]
                        if q(.2): ia[a] = rng.choice(['', ' '])
                text = rng.choice(['abc', 'dogs', 'x', 'été', '\U0001d11e12']) if not (('content' in ia or 'segmentation' in ia) and rng.random() < .7) and rng.random() < .92 else None
                if rng.random() < .1: ia[rng.choice(['v', 'ref', 'target'])] = rng.choice(['', 'x', 'a0', 't0'])
                items.append(node('item', id=iid[0] if iid else None, type=rng.choice([None] * 6 + ['x', 'word', '']), attrs=ia, text=text))
            if rng.random() < .1: at[rng.choice(['v', 'ref', 'state'])] = rng.choice(['', 'x', 'a0', 't0'])
            tiers.append(node('tier', id=tid[0] if tid else None, type=None if q() else rng.choice(['words', 'x', '']) if q(.5) else 'glosses', attrs=at, ch=items))
        igts.append(node('igt', id=None if q() else rng.choice(ids) if q() else 'g%d' % gi, ch=tiers, type=rng.choice([None] * 5 + ['x', '']),
                         attrs={rng.choice(RA + ['v']): rng.choice(['', 'a0', 't0'])} if rng.random() < .1 else {},
                         md=[node('metadata', id=rng.choice([None, 'a0', 'm']), ch=[node('meta', id=rng.choice([None, 't0', 'x']), text='m')])] if rng.random() < .2 else []))
    return node('corpus', id=None if q(2) else rng.choice(['c1', 'c2', 'c1', 'c3']) if rng.random() < .8 else None, map={}, ch=igts)


def vfile(d, rng, wild):
    e = codec.toelem(d, rng)
    enc_ = rng.choice(['utf-8'] * 5 + ['utf-16', 'iso-8859-1', 'us-ascii'])
    text = codec.emit(e, rng, enc_)
    # read by the harness (igt ids may clash, so without the container)
    f = vflat(d)
    return text.encode(enc_), f, wild


def vflat(d):
    out = []
    def go(n, par):
        i = len(out) + 1
        e = dict(k=n['k'] if n['k'] != 'corpus' else 'xigtcorpus', par=par, name='', nameCps=[], ns=[], id=[cps(x) for x in n['id']], type=[cps(x) for x in n['type']],
                 text=[cps(x) for x in n['text']], at=[dict(uri='', loc=k, v=cps(v)) for k, v in n['attrs']], map=[], md=[])
        out.append(e)
        e['ch'] = [go(c, i) for c in n['ch']]
        return i
    go(d, 0)
    return out


def rnd03(seed):
    rng = random.Random(seed)
    files = []
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        wild = rng.random() < .15
        d = vdoc(rng, wild)
        data, f, w = vfile(d, rng, wild)
        if rng.random() < .03:
            data, f = data[:rng.randint(1, max(1, len(data) - 12))], None
        files.append((data, f, w))
    args, level = rng.choice(LEVELS)
    c, out = validate(files, args, level, rng)
    return dict(c, src=dict(t='rnd', seed=seed, args=args, files=[x[0].decode('utf-8', 'replace')[:6000] for x in files], out=out[:3000]))


def fromflat(f):
    def go(i):
        e = f[i - 1]
        return node('corpus' if e['k'] == 'xigtcorpus' else e['k'], id=uncps(e['id'][0]) if e['id'] else None, type=uncps(e['type'][0]) if e['type'] else None,
                    attrs={a['loc']: uncps(a['v']) for a in e['at']}, text=uncps(e['text'][0]) if e['text'] else None, ch=[go(j) for j in e['ch']], map={} if i == 1 else None)
    return go(1)


def gen03(x):
    c, k, seed = x
    rng = random.Random('%s/%s' % (seed, k))
    f = c['out']['v']['doc']
    args, level = LEVELS[k % 4]
    text = codec.emit(codec.toelem(fromflat(f), rng), rng)
    r, out = validate([(text.encode('utf-8'), f, False)], args, level, rng)
    return dict(r, src=dict(t='gen', c=c, k=k, seed=seed, text=text, out=out))


# ------------------------------------------------------------------ query

LITS = ['', ' ', 'n=', '{', '}', '{foo}', 'é\t', '{{x}}', '%s', ': ', '{query', '\\n']


def describe(rng):
    """(parts, template)"""
    parts, t = [], ''
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        if rng.random() < .5:
            x = rng.choice(LITS)
            parts.append(dict(k='lit', t=cps(x)))
            t += x if x == '{foo}' and rng.random() < .6 else x.replace('{', '{{').replace('}', '}}')
        else:
            f = rng.choice(['query', 'subquery', 'match'])
            parts.append(dict(k=f, t=[]))
            t += '{%s}' % f if rng.random() < .7 else '{%s!s}' % f
    return parts, t


def query(docs, agenda, rng, fd=None, base=False):
    d = tempfile.mkdtemp(dir=SCRATCH)
    try:
        files, heads = [], []
        for k, (text, f, o) in enumerate(docs):
            p = os.path.join(d, 'q%d.xml' % k)
            write(p, text); files.append(p)
            n = os.path.basename(p) if base else p
            heads.append(cps((fd or '{filename}:').replace('{filename}', n)))
        args = list(files) if rng.random() < .5 else []
        opts = []
        for e in agenda:
            opts += [rng.choice(dict(find=['-f', '--find'], count=['-c', '--count'], unique=['-u', '--unique'], tally=['-t', '--tally'])[e['act']]), e['qs']]
            if e['act'] == 'tally': opts.append(e['ss'])
            for t in e['ds']: opts.append('--description=' + t)
        if fd is not None: opts.append('--file-description=' + fd)
        if base: opts.append('--basename')
        args = args + opts if args else opts + ['--'] + files
        bad, status, out, _ = cli(xigt_query, args)
        lines = [cps(l.lstrip(' ')) for l in out.split('\n')]
        if lines and not lines[-1]: lines.pop()
        same = all(read(p) == x[0] for p, x in zip(files, docs))
        ok = bad or ('exit %s' % status if status else '') or ('' if same else 'files changed')
        return dict(t='query', docs=[f for _, f, _ in docs], heads=heads, ok=ok, lines=lines,
                    agenda=[dict(act=e['act'], q=e['q'], sub=e['sub'], qtext=cps(e['qs']), stext=cps(e['ss']), desc=e['desc']) for e in agenda]), args
    finally: shutil.rmtree(d)


DEF = dict(find=[('query',), ('lit', '\t'), ('match',)], tally=[('query',), ('lit', '\t'), ('subquery',), ('lit', '\t'), ('match',)])


def entry(act, q, sub, rng, user=None):
    de = [dict(k=x[0], t=cps(x[1]) if len(x) > 1 else []) for x in DEF.get(act, DEF['find'])]
    ds = []
    for _ in range(user if user is not None else rng.choice([0, 0, 1, 1, 2])):
        de, t = describe(rng); ds.append(t)
    qs, ss = render(q, rng), render(sub, rng) if act == 'tally' else ''
    return dict(act=act, q=q, sub=sub, qs=qs, ss=ss, desc=de, ds=ds)


def rnd04(seed):
    rng = random.Random(seed)
    docs = []
    for k in range(rng.choice([1, 1, 2, 3])):
        d, pres = xmldoc(rng, rng.random() < .5)
        for n in walk(d):
            if n['k'] in ('igt', 'tier', 'item') and rng.random() < .8: setattr_(n, 'g', rng.choice(['a', 'b', 'c', 'None', 'a, b']))
        docs.append(load(d, rng))
    agenda = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        act = rng.choice(['find', 'count', 'unique', 'tally', 'tally'])
        val = P(S('attr', 'g')) if rng.random() < .7 else P(S('attr', rng.choice(['id', 'type', 'v', 'lang', '*'])))
        r = rng.random()
        lv = rng.choice(['igt', 'tier', 'item', 'meta', '*'])
        objs = dict(abs=rng.random() < .3, steps=[S('desc', lv)]) if r < .5 else P(S('child', 'igt')) if r < .6 else rpath(rng, ['dc', 'p'], rng.random() < .4, 1, abs_=rng.random() < .5)
        if not objs['abs'] and objs['steps'][0]['ax'] == 'desc': objs = P(S('self'), *objs['steps'])
        sub = P(S('child', '*'), *val['steps']) if rng.random() < .3 else P(S('desc', 'item'), *val['steps']) if rng.random() < .1 else val
        if sub['steps'][0]['ax'] == 'desc': sub = P(S('self'), *sub['steps'])
        if act in ('find', 'unique') and objs['steps'][-1]['ax'] not in ('attr', 'func'): objs = dict(objs, steps=objs['steps'] + val['steps'])
        if act == 'tally' and objs['steps'][-1]['ax'] in ('attr', 'func'): sub = P(S('self'))
        agenda.append(entry(act, objs, sub, rng))
    fd = rng.choice([None, None, None, '', 'F {filename} é', '{filename}'])
    c, args = query(docs, agenda, rng, fd or None, rng.random() < .3)
    return dict(c, src=dict(t='rnd', seed=seed, args=args))


def gen04(x):
    c, k, seed = x
    rng = random.Random('%s/%s' % (seed, k))
    xs = c['c']['xs']
    igts = []
    for i, g in enumerate(xs):
        items = [node('item', attrs={'g': uncps(r['v'][0])} if r['v'] else {}) for r in g]
        igts.append(node('igt', id='i%d' % i, ch=[node('tier', ch=items)]))
    d = node('corpus', map={}, ch=igts)
    q, sub = P(S('child', 'igt')), P(S('self'), S('desc', 'item'), S('attr', 'g'))
    e = entry('tally', q, sub, rng, 0)
    doc = load(d, rng)
    r, _ = query([doc], [e], rng)
    got = [uncps(l).split('\t') for l in r['lines'][1:-1]]
    exp = [[str(t['n']), e['qs'], e['ss'], ', '.join(uncps(v['v'][0]) if v['v'] else 'None' for v in t['g'])] for t in c['out']['t']]
    if r['ok'] or got != exp:
        return ('tally of %s: %s printed %s, specified %s' % ([[uncps(v['v'][0]) if v['v'] else None for v in g] for g in xs], r['ok'], got, exp), dict(t='gen', c=c, k=k, seed=seed))


# ------------------------------------------------------------------ common

RND = dict(T01=rnd01, T02=rnd02, T03=rnd03, T04=rnd04)


def rnd(x):
    return RND[x[0]]('%s%s' % x)


def gen(x):
    return dict(T01=gen01, T02=gen02, T03=gen03, T04=gen04)[x[0]](x[1:])


def canary(c):
    if c['ok'] or c.get('same'): return None
    if c['t'] == 'part' and not c['exists'] and len(c['out']) > 1 and len(c['p']['steps']) == 1 and c['p']['steps'][0]['ax'] == 'attr':
        c['out'][0]['igts'] += c['out'].pop()['igts']
        return c
    if c['t'] == 'sort' and c['o']['igt'] and all(len(p['steps']) == 1 and p['steps'][0]['name'] == 'sk' for p in c['o']['igt']) and not (c['o']['tier'] or c['o']['item'] or c['o']['deps']):
        x = c['ch'][0]
        if len(x) > 1: x[0], x[1] = x[1], x[0]; return c
    if c['t'] == 'valid' and c['level'] == 40 and not any(f['wild'] or not f['loads'] for f in c['files']):
        c['status'] = 1 - c['status']
        c['rep'][0]['recs'].append(dict(o=1, r='unique')); c['rep'][0]['heads'].append(1)
        return c
    if c['t'] == 'query' and any(e['act'] == 'count' for e in c['agenda']) and all(len(e['q']['steps']) <= 2 and not has_odd(e['q']) and e['act'] == 'count' for e in c['agenda']):
        c['lines'].insert(1, c['lines'][-1])
        return c


def has_odd(p):
    return any(s['ax'] in ('group', 'func', 'parent') or s['preds'] for s in p['steps'])


def judge(ctx, cs):
    keep = [{k: v for k, v in c.items() if k != 'src'} for c in cs]
    for i, m in validate_cases(ctx, 'Trace_Scripts', keep, canary, per=4, batch=3000, timeout=1500):
        c = cs[i]
        got = {k: v for k, v in c.items() if k in ('out', 'ch', 'rep', 'lines', 'status', 'ok')}
        ctx.violation('%s: %s; got %s; specified %s' % (json.dumps(c['src'])[:1500], m['bad'], json.dumps(got)[:1200], json.dumps(m['exp'])[:1200]),
                      {k: v for k, v in c['src'].items() if k not in ('out',)})


MODES = dict(T01=[('part', 0)], T02=[('sort1', None), ('sort2', 0)], T03=[('valid', None)], T04=[('tally', None)])


def run(ctx):
    global SCRATCH
    codec.SCRATCH = SCRATCH = ctx.scratch
    cases = []
    for mode, size in MODES[ctx.pid]:
        if size is None: size = dict(sort1=ctx.n(3, 4), valid=ctx.n(1, 0), tally=ctx.n(5, 6))[mode]
        run_tlc(ctx, 'MC_Scripts', 'INIT Init\nNEXT Next\nINVARIANTS EveryOnce NothingElse Ordered Tallied Judged\nCONSTRAINT Emit\n' + consts(Mode=mode, Size=size),
                collect=lambda t, p: cases.append(p), timeout=2500, heap='10g')
    if len(cases) < 1000: raise MachineryError('too few cases')
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.notes['generated_cases'] = len(cases)
    most = ctx.n(dict(T01=2500, T02=4000, T03=4000, T04=2000)[ctx.pid], 60000)
    if len(cases) > most: cases = ctx.sub('pick').sample(cases, most)
    ctx.replayed += len(cases)
    rs = pmap(gen, [(ctx.pid, c, k, ctx.seed) for k, c in enumerate(cases)])
    if ctx.pid == 'T03': judge(ctx, rs)
    else:
        for r in rs:
            if r: ctx.violation(*r)
    n = ctx.n(dict(T01=900, T02=1500, T03=2500, T04=1500)[ctx.pid], dict(T01=8000, T02=15000, T03=30000, T04=15000)[ctx.pid])
    cs = pmap(rnd, [(ctx.pid, '%s-%d' % (ctx.seed, k)) for k in range(n)])
    ctx.sample(dict(kind='run of the script', **{k: v for k, v in cs[4]['src'].items() if k != 'files'}))
    judge(ctx, cs)


def replay(ctx, case):
    global SCRATCH
    codec.SCRATCH = SCRATCH = ctx.scratch
    more = [rnd((ctx.pid, 'x%d' % k)) for k in range(60)]
    if case['t'] == 'gen':
        r = gen((ctx.pid, case['c'], case['k'], case['seed']))
        ctx.replayed += 1
        if ctx.pid == 'T03': judge(ctx, [r] + more)
        elif r: ctx.violation(*r)
    else: judge(ctx, [RND[ctx.pid](case['seed'])] + more)
