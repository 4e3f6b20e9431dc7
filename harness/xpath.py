"""P01, P02: the path language."""
import json, os, random
from lib.core import MachineryError, call, cps, pmap, run_tlc, uncps, validate_cases, consts
from xigt import xigtpath as xp
from harness.docs import Gen, build, edit, node, walk, un, URIS

C = lambda x: [cps(t) for t in x]


def flat(doc, root):
    """The specification's node sequence of a nested document, and the real
    objects in the same order."""
    out, objs = [], []
    def at(a):
        r = []
        for k, v in a:
            u, l = k[1:].split('}', 1) if k.startswith('{') else ('', k)
            r.append(dict(uri=u, loc=l, v=cps(v)))
        return r
    def go(n, o, par):
        i = len(out) + 1
        kind = n['k'] if n['k'] != 'corpus' else 'xigtcorpus'
        e = dict(k=kind, par=par, name=n['name'], nameCps=cps(n['name']), ns=n['ns'], id=C(n['id']), type=C(n['type']), text=C(n['text']),
                 at=at([a for a in o.attributes.items()]), map=n['map'][0] if n['map'] else [])
        out.append(e); objs.append(o)
        md = list(o.metadata) if n['md'] else []
        e['md'] = [go(c, x, i) for c, x in zip(n['md'], md)]
        e['ch'] = [go(c, x, i) for c, x in zip(n['ch'], list(o) if n['ch'] else [])]
        return i
    go(doc, root, 0)
    return out, objs


def render(p, rng=None):
    sp = lambda s='': ' ' if rng and rng.random() < .12 else s
    def step(s):
        pre = s['pre'] + ':' if s['pre'] else ''
        ax = s['ax']
        if ax in ('child', 'desc'): t = pre + s['name']
        elif ax == 'attr': t = '@' + pre + s['name']
        elif ax == 'self': t = '.'
        elif ax == 'parent': t = '..'
        elif ax == 'func':
            t = s['name'] + '(' + (',' + sp()).join('"%s"' % a for a in s['args']) + ')'
        else:
            t = '(' + sp() + (sp(rng.choice([' ', '']) if rng else ' ') + '|' + sp(' ')).join(render(a, rng) for a in s['alts']) + sp() + ')'
        for q in s['preds']:
            t += '[' + sp() + render(q['p'], rng)
            if q['cmp']: t += sp() + q['cmp'] + sp() + '"' + uncps(q['val']) + '"'
            t += sp() + ']'
        return t
    o = ''
    for i, s in enumerate(p['steps']):
        if s['ax'] == 'desc': o += '//'
        elif i or p['abs']: o += '/'
        o += step(s)
    return o


def results(rs, where):
    out = []
    for r in rs:
        if r is None: out.append(dict(n=0, v=[]))
        elif isinstance(r, str): out.append(dict(n=0, v=[cps(r)]))
        else: out.append(dict(n=where.get(id(r), -9), v=[]))
    return out


def ask(path, obj, where):
    """(err, got, first, lazy)"""
    t, v = call(xp.findall, obj, path)
    if t != 'ok': return dict(err=True, got=[], first=dict(n=0, v=[]), lazy=[])
    got = results(v, where)
    t, f = call(xp.find, obj, path)
    first = results([f], where)[0] if t == 'ok' else dict(n=-8, v=[])
    def it():
        o = []
        for x in xp.iterfind(obj, path): o.append(x)
        return o
    t, z = call(it)
    return dict(err=False, got=got, first=first, lazy=results(z, where) if t == 'ok' else [dict(n=-8, v=[])])


def refused(path, obj):
    """The ways of asking that refuse the path as no path."""
    r = []
    for f in ('find', 'findall', 'iterfind'):
        try: list(getattr(xp, f)(obj, path) or ())
        except xp.XigtPathError: r.append(f)
        except Exception: pass
    return r


# ------------------------------------------------------------- fixed document

def mcdoc(style=0):
    u = 'urn:p'
    n = lambda name, **k: node('child', name=name, **k)
    ps = node
    m1 = node('meta', id='m1', type='x', attrs={'v': 'a'}, text='a', ch=[n('n', text='b', attrs={'{urn:p}v': 'b'}, ch=[n('n', ns=u, text='a')]), n('n', ns=u, attrs={'v': 'b'}), n('tier')])
    md = lambda i, ch, **k: node('metadata', id=i, ch=ch, **k)
    w = node('tier', id='w', type='words', attrs={'v': 'a'}, ch=[node('item', id='w1', text='ab', attrs={'v': 'a', '{urn:p}v': 'x'}), node('item', id='w2', text='a')])
    g = node('tier', id='g', attrs={'content': 'w', 'alignment': 'w', 'v': 'b'}, md=[md('gm', [node('meta', text='')], ns=u)],
             ch=[node('item', id='g1', attrs={'content': 'w1[0:1]', 'alignment': 'w1,w2', 'ref': 'w2'}), node('item', id='g2', type='t', attrs={'alignment': 'w2', 'v': ''}, text='b')])
    s = node('tier', id='s', type='segs', ns=u, attrs={'segmentation': 'w'}, ch=[node('item', id='s1', attrs={'segmentation': 'w2', 'alignment': 'g1'})])
    i1 = node('igt', id='i1', attrs={'v': 'a', '{urn:p}v': 'a'}, md=[md('md', [m1]), md(None, [], type='t')], ch=[w, g, s])
    i2 = node('igt', id='i2', ns=u if style else None, attrs={'v': 'b'}, ch=[node('tier', id='w', attrs={'segmentation': 'e'}), node('tier', id='e')] if style else [node('tier', id='t', ch=[node('item', id='b1', text='a')])])
    return node('corpus', id='c', map={'p': u, 'q': 'urn:q'}, md=[md('cm', [node('meta', ch=[n('n', ns=u, attrs={'v': 'a'})])])], ch=[i1, i2])


_MC = None


def mc(x):
    i, c = x
    global _MC
    if _MC is None:
        _MC = []
        for st in (0, 1):
            d = mcdoc(st)
            o = build(d)
            f, objs = flat(d, o)
            _MC.append((f, objs, {id(z): k + 1 for k, z in enumerate(objs)}))
    f, objs, where = _MC[c['style']]
    path = render(c['p'], random.Random(i) if i % 3 == 0 else None)
    for k, r in enumerate(c['r']):
        if not r: continue
        g = ask(path, objs[k], where)
        exp = r[0]
        if g['err'] or g['got'] != exp or g['lazy'] != exp or g['first'] != (exp[0] if exp else dict(n=0, v=[])):
            return dict(i=i, path=path, ctx=k + 1, got=g, exp=exp, case=dict(style=c['style'], p=c['p'], r=c['r']))


# ------------------------------------------------------------- random

ATTR = ['v', 'lang', 'doc-id', 'values', 'text', 'value', 'references', 'k_1', 'textual']
NAMES = ['subject', 'n', 'language', 'item', 'tier', 'values', 'text-type', 'value', 'referents']
VALS = ['a', 'b', 'x y', 'u/v', '1.5', 'a=b', '[x]', '(y)', 'é', '', 'p|q', '//', '@id', '..', 'text()', 'a:b', 'a, b', ' s ', '!=']


def rdoc(rng, fn):
    g = Gen(rng, texts=VALS, rich=1)
    d = g.corpus(rng.choice([0, 1, 1, 2, 3]))
    root = dict((p, u) for p, u in sorted(URIS.items()) if rng.random() < .5)
    d['map'] = [sorted([p, u] for p, u in root.items())]
    uris = sorted(root.values())
    for n in walk(d):
        if n is not d:
            n['map'] = []
            if rng.random() < .07: n['map'] = [sorted(d['map'][0] + [['own', 'urn:own']])]
        if n['k'] == 'child': n['name'] = rng.choice(NAMES)
        n['ns'] = [rng.choice(uris)] if uris and rng.random() < (.4 if n['k'] == 'child' else .12) else []
        a = {}
        while rng.random() < .45:
            a[('{%s}' % rng.choice(uris) if uris and rng.random() < .35 else '') + rng.choice(ATTR)] = rng.choice(VALS)
        n['attrs'] = [list(x) for x in a.items()]; rng.shuffle(n['attrs'])
    for gi in d['ch']:
        if fn or rng.random() < .5:
            for ti, t in enumerate(gi['ch']):
                t['id'] = ['t%d' % ti]
                prev = gi['ch'][:ti]
                for a in ('content', 'alignment', 'segmentation', 'ref'):
                    if prev and rng.random() < .4: t['attrs'].append([a, rng.choice(prev)['id'][0]])
                    elif rng.random() < .05: t['attrs'].append([a, rng.choice(['t%d' % k for k in range(len(gi['ch']))])])
                at = dict(map(tuple, t['attrs']))
                for ii, it in enumerate(t['ch']):
                    it['id'] = ['t%di%d' % (ti, ii)]
                    for a in ('content', 'alignment', 'segmentation', 'ref'):
                        tgt = next((p for p in prev if p['id'][0] == at.get(a)), None)
                        if a in at and tgt is not None and tgt['ch'] and rng.random() < .8:
                            # expressions over the referred tier (they were given ids already)
                            e = ''
                            for j in range(rng.choice([1, 1, 2, 3])):
                                e += (rng.choice([',', '+', ' ']) if j else '') + rng.choice(tgt['ch'])['id'][0]
                                if rng.random() < .3: e += rng.choice(['[0:1]', '[1:3]', '[0:1,1:2]', '[-1:9]'])
                            it['attrs'].append([a, e])
                        elif a in ('alignment', 'ref') and rng.random() < .2 and fn:
                            oth = [i['id'][0] for p in gi['ch'][:ti] for i in p['ch']]
                            if oth: it['attrs'].append([a, ' '.join(rng.choice(oth) for _ in range(rng.randint(1, 3)))])
                    it['attrs'] = [list(z) for z in dict(map(tuple, it['attrs'])).items()]
                t['attrs'] = [list(z) for z in at.items()]
                for it in t['ch']:
                    have = dict(map(tuple, it['attrs']))
                    if rng.random() < .55 and ('content' in have or 'segmentation' in have): it['text'] = []
    return d, sorted(root)


def rpath(rng, pres, fn, depth=2, nsteps=None, abs_=None, kinds=None):
    S = lambda ax, pre='', name='', **k: dict(dict(ax=ax, pre=pre, name=name, args=[], alts=[], preds=[]), **k)
    pre = lambda p: rng.choice(pres + ['zz'] if rng.random() < .1 else pres) if pres and rng.random() < p else ''
    abs_ = rng.random() < .35 if abs_ is None else abs_
    steps, val = [], False
    n = nsteps or rng.choice([1, 1, 2, 2, 3, 4, 5])
    order = ['igt', 'tier', 'item']
    lvl = 0
    for k in range(n):
        r = rng.random()
        last = k == n - 1
        if r < .42:
            nm = rng.choice(order[lvl:lvl + 2] or ['*']) if rng.random() < .6 and not (lvl == 0 and not abs_ and rng.random() < .5) else rng.choice(['igt', 'tier', 'item', 'metadata', 'meta', '*', '*'] + NAMES)
            s = S('child', pre(.15 if nm in ('igt', 'tier', 'item', 'metadata', 'meta') else .4), nm)
            if nm in order: lvl = order.index(nm) + 1
        elif r < .62 and (k or abs_):
            nm = rng.choice(['tier', 'item', 'item', 'metadata', 'meta', 'igt', '*'] + NAMES)
            s = S('desc', pre(.12 if nm in ('igt', 'tier', 'item') else .4), nm)
            if nm in order: lvl = order.index(nm) + 1
        elif r < .7: s = S(rng.choice(['self', 'parent']))
        elif r < .8 and depth > 0:
            s = S('group', alts=[rpath(rng, pres, fn, depth - 1, rng.choice([1, 1, 2]), rng.random() < .12) for _ in range(rng.choice([1, 2, 2, 3]))])
        elif fn and r < .95:
            f = rng.choice(['text', 'value', 'referent', 'referrer'])
            if f in ('text', 'value') and not last: f = 'referent'
            s = S('func', '', f)
            if f[0] == 'r' and rng.random() < .45:
                s['args'] = rng.sample(['alignment', 'content', 'segmentation', 'ref', 'nope'], rng.choice([1, 1, 2, 3]))
        elif last:
            s = S('attr', *rng.choice([('', 'id'), ('', 'type'), ('', 'name'), (pre(.4), '*'), (pre(.4), rng.choice(ATTR)), (pre(.4), rng.choice(ATTR))]))
        else: s = S('child', '', '*')
        if depth > 0 and rng.random() < .3:
            for _ in range(rng.choice([1, 1, 2])):
                if s['ax'] == 'attr' or (s['ax'] == 'func' and s['name'] in ('text', 'value')): p = dict(abs=False, steps=[S('self')])
                elif rng.random() < .5: p = dict(abs=False, steps=[S('parent')] * (rng.random() < .2) + [S('attr', *rng.choice([('', 'id'), ('', 'type'), (pre(.3), rng.choice(ATTR))]))])
                elif fn and rng.random() < .6: p = dict(abs=False, steps=[S('func', '', rng.choice(['text', 'value', 'referent', 'referrer']))])
                else: p = rpath(rng, pres, fn, 0, rng.choice([1, 2]), rng.random() < .08)
                p = json.loads(json.dumps(p))
                for q in p['steps']: q['preds'] = []
                cmp = rng.choice(['', '=', '!=', '='])
                v = rng.choice(VALS + ['t0', 't1', 'words', 'glosses', 'i1'])
                if cmp and any(c in v for c in '"\\'): v = 'a'
                s['preds'].append(dict(p=p, cmp=cmp, val=cps(v) if cmp else []))
        steps.append(s)
        if s['ax'] == 'attr' or (s['ax'] == 'func' and s['name'] in ('text', 'value')): break
    return dict(abs=abs_, steps=steps)


def has_func(p):
    return any(s['ax'] == 'func' or any(map(has_func, s['alts'])) or any(has_func(q['p']) for q in s['preds']) for s in p['steps'])


def rnd(x):
    pid, seed = x
    rng = random.Random('%s%s' % (pid, seed))
    fn = pid == 'P02'
    d, pres = rdoc(rng, fn)
    o = build(d)
    out = [asked(rng, d, o, pres, fn, seed, 12)]
    if rng.random() < .35:      # the same paths, and others, once it is edited
        _, objs = flat(d, o)
        ps = [(q['p'], objs[q['c'] - 1]) for q in out[0]['qs']]
        edit(d, o, rng, VALS, graft=True)
        if rng.random() < .4:   # its igts given to another corpus
            new = build(dict(d, ch=[]))
            for g in list(o):
                o.remove(g)
                new.append(g)
            o = new
        out.append(asked(rng, d, o, pres, fn, seed, 8, ps))
    return out


def asked(rng, d, o, pres, fn, seed, n, before=()):
    f, objs = flat(d, o)
    where = {id(z): k + 1 for k, z in enumerate(objs)}
    by = {}
    for k, e in enumerate(f): by.setdefault(e['k'], []).append(k)
    qs = []
    for _ in range(n):
        for _ in range(20):
            p = rpath(rng, pres, fn)
            if not fn or has_func(p) or rng.random() < .1: break
        same = None
        if before and rng.random() < .6: p, same = rng.choice(before)
        k = rng.choice(by[rng.choice(sorted(by))]) if not p['abs'] or rng.random() < .5 else 0
        if rng.random() < .3: k = 0
        if id(same) in where and rng.random() < .7: k = where[id(same)] - 1
        path = render(p, rng)
        end = ''
        if not fn and rng.random() < .04:
            if rng.random() < .3: path, p = rng.choice(['', ' ', '\n  ']), dict(abs=False, steps=[])
            else:
                end = rng.choice(['/', '//'])
                path += end
        g = ask(path, objs[k], where)
        if len(g['got']) > 400: continue
        qs.append(dict(p=p, end=end, refused=refused(path, objs[k]) if end else [], c=k + 1, path=path, **g))
    return dict(seed=seed, doc=f, qs=qs)


def canary(c):
    for q in c['qs']:
        if not q['err'] and len(q['got']) > 1 and q['got'][0] != q['got'][-1] and q['p']['abs'] and all(s['ax'] in ('child', 'desc', 'attr') and not s['preds'] for s in q['p']['steps']):
            q['got'] = q['got'][::-1]
            return c


def judge(ctx, cs):
    cs = [c for c in cs if c['qs']]
    keep = [dict(c, qs=[dict((k, v) for k, v in q.items() if k != 'path') for q in c['qs']]) for c in cs]
    for i, m in validate_cases(ctx, 'Trace_XPath', keep, canary):
        k = m['bad'][0] - 1
        q = cs[i]['qs'][k]
        exp = next(e['r'] for e in m['exp'] if e['k'] == k + 1)
        ctx.violation('%s from object %d: code %s, specified %s' % (q['path'], q['c'], 'an error' if q['err'] else dict(all=q['got'], first=q['first'], lazy=q['lazy']), exp),
                      dict(t='rnd', seed=cs[i]['seed'], path=q['path'], ctx=q['c'], doc=cs[i]['doc']))


def run(ctx):
    cases = []
    for style in (0, 1):
        d = mcdoc(style)
        f, _ = flat(d, build(d))
        p = os.path.join(ctx.scratch, 'doc%d.ndjson' % style)
        with open(p, 'w') as h: h.write(json.dumps(f) + '\n')
        run_tlc(ctx, 'MC_XPath', 'INIT Init\nNEXT Next\nINVARIANTS AbsoluteSame StepByStep DescIsClosure DocOrder Complement Converse\nCONSTRAINT Emit\n'
                + consts(N0=2 if ctx.quick else 3, Mode=ctx.pid), env={'DOC_FILE': p}, collect=lambda t, c: cases.append(dict(c, style=style)), timeout=3000)
    if len(cases) < 1000: raise MachineryError('too few cases')
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.replayed += len(cases)
    ctx.sample(dict(kind='generated path', path=render(cases[7]['p']), results_from_each_object=cases[7]['r'][:6]))
    for r in pmap(mc, list(enumerate(cases))):
        if r is not None: ctx.violation('%s from object %d: code %s, specified %s' % (r['path'], r['ctx'], r['got'], r['exp']), dict(t='mc', i=r['i'], case=r['case']))
    cs = [c for x in pmap(rnd, [(ctx.pid, '%s-%d' % (ctx.seed, i)) for i in range(ctx.n(1300, 20000))]) for c in x]
    qs = [q for c in cs for q in c['qs']]
    ctx.notes['paths_asked'] = len(qs)
    ctx.notes['paths_with_results'] = sum(1 for q in qs if q['got'])
    ctx.sample(dict(kind='random paths', paths=[q['path'] for q in qs[:8]]))
    judge(ctx, cs)


def replay(ctx, case):
    if case['t'] == 'mc':
        r = mc((case['i'], case['case']))
        if r: ctx.violation('%s: code %s, specified %s' % (r['path'], r['got'], r['exp']), case)
    else: judge(ctx, rnd((ctx.pid, case['seed'])) + [c for k in range(30) for c in rnd((ctx.pid, 'x%d' % k))])
