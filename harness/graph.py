"""G01 G02 G03: walks along references and the order of tiers."""
import itertools, random
from lib.core import MachineryError, call, consts, cps, pmap, run_tlc, uncps, validate_cases
from xigt import Igt, Tier, Item, XigtCorpus, query
from harness.exprs import rand_expr
from harness.index import un

CAP = 3000


class Doc(object):
    """doc with attribute texts and ids as Python strings."""
    def __init__(self, doc, style=0):
        self.tiers = []
        for t in doc:
            self.tiers.append(Tier(id=un(t['id']), type='x', attributes=dict(map(tuple, t['at'])),
                                   items=[Item(id=un(i['id']), attributes=dict(map(tuple, i['at'])), text='x') for i in t['items']]))
        self.igt = Igt(id='i', tiers=self.tiers if style % 2 else None)
        if not style % 2: self.igt.extend(self.tiers)
        if style % 3 == 0: self.corpus = XigtCorpus(igts=[self.igt])
        self.items = [list(t) for t in self.tiers]

    def ix(self, o):
        return next((k for k, t in enumerate(self.tiers, 1) if t is o), -1)

    def step(self, s):
        t, a, r, its = s
        r_ = self.ix(r)
        pos = lambda y: next((k for k, z in enumerate(self.items[r_ - 1], 1) if z is y), -1) if r_ > 0 else -1
        return dict(t=self.ix(t), a=a, r=r_, **{'is': [pos(y) for y in its]})

    def start(self, ti, is_):
        return self.tiers[ti - 1] if is_ is None else self.items[ti - 1][is_ - 1]

    def walk(self, f, *a, **k):
        out = []
        def go():
            for s in itertools.islice(f(*a, **k), CAP): out.append(s)
            return len(out)
        t, n = call(go, limit=5)
        end = 'hang' if t == 'hang' or n == CAP else 'end' if t == 'ok' else 'err'
        try:
            return [self.step(s) for s in out[:50 if end == 'hang' else CAP]], end
        except Exception:
            return [], 'bad'

    def sort(self, ras, default=False):
        """Sort twice; the orders as original numbers."""
        def go():
            if default: self.igt.sort_tiers()
            else: self.igt.sort_tiers(refattrs=ras)
            return [self.ix(t) for t in self.igt.tiers]
        before = {y.id: self.igt.get_item(y.id) for its in self.items for y in its if y.id}
        t, got = call(go, limit=5)
        if t != 'ok': return [], [], False
        t, again = call(go, limit=5)
        if t != 'ok': return got, [], False
        g = self.igt
        intact = all(x.igt is g and (x.id is None or (g[x.id] is x and g.get(x.id) is x)) for x in self.tiers) \
            and len(g) == len(self.tiers) and all(list(x) == its and all(y.tier is x for y in its) for x, its in zip(self.tiers, self.items)) \
            and all(g.get_item(i) is y for i, y in before.items())
        return got, again, bool(intact)


def mc(x):
    i, c = x
    doc = [dict(id=t['id'], at=[[a, ' '.join(v)] for a, v in t['at']],
                items=[dict(id=y['id'], at=[[a, ' '.join(v)] for a, v in y['at']]) for y in t['items']]) for t in c['doc']]
    bad = []
    for s in c['sort']:
        d = Doc(doc, i)
        got, again, intact = d.sort(s['o'] if i % 2 else tuple(s['o']))
        ok = intact and sorted(got) == list(range(1, c['n'] + 1)) and [k for k in got if k in s['s']] == s['s'] and \
            (not s['acyclic'] or again == got)
        if not ok: bad.append(('G03', s, got, again, intact))
    d = Doc(doc, i)
    for k, w in enumerate(c['walks']):
        starts = [w['is'][0]] if len(w['is']) == 1 else [None]
        AS, SA = ('alignment', 'segmentation'), ('segmentation', 'alignment')
        for st in starts:
            o = d.start(w['t'], st)
            for r, a in ((AS, w['anc'][0]), (SA, w['anc2']), (None, w['anc'][1])):
                got, end = d.walk(query.ancestors, o, **({} if r is None else dict(refattrs=r)))
                if got != a['steps'] or end == 'hang' or (a['end'] == 'end' and end != 'end'):
                    bad.append(('G01', r, a, got, end))
            for kw, e in ((dict(refattrs=SA, follow='first'), w['first']), (dict(), w['first']), (dict(refattrs=AS, follow='all'), w['all'])):
                got, end = d.walk(query.descendants, o, **kw)
                if got != e or end != 'end': bad.append(('G02', kw, e, got, end))
    if bad: return dict(bad=bad, i=i, case=c)


def rnd(seed):
    rng = random.Random(seed)
    atts = ['alignment', 'segmentation', 'content', 'head']
    n = rng.choice([1, 2, 3, 4, 5, 6, 8])
    tids = rng.sample(['t', 'u', 'w', 'ww', 'm', 'mm1', 'g-1', 'words', 'gl.x', 'p2', 'É'.lower() and 'ph', 'tr'], n)
    multi = rng.random() < .15
    noid = rng.random() < .2
    chainy = rng.random() < .4
    same = rng.random() < .3          # items of different tiers share ids
    doc = []
    iid = lambda t, k: '%s%d' % ('i' if same else t[0] + t[-1] + 'i', k)
    for k, t in enumerate(tids):
        at = []
        for a in atts:
            if rng.random() < (.45 if a != 'head' else .2):
                v = rng.choice(tids[:k] or ['nope']) if chainy else rng.choice(tids)
                if rng.random() < .06: v = 'nope'
                if multi and rng.random() < .3: v += ' ' + rng.choice(tids)
                at.append([a, v])
        rng.shuffle(at)
        items = []
        for j in range(rng.choice([0, 1, 2, 3, 4])):
            ia = []
            for a in atts:
                p = .8 if any(x[0] == a for x in at) else .1
                if rng.random() < p:
                    tg = next((x[1].split()[0] for x in at if x[0] == a), rng.choice(tids))
                    ids = [iid(tg, rng.randint(0, 3)) for _ in range(3)]
                    ia.append([a, rand_expr(rng, ids, True)[0] if rng.random() < .5 else ' '.join(ids[:rng.randint(0, 3)])])
            items.append(dict(id=[iid(t, j)] if rng.random() > .06 else [], at=ia))
        doc.append(dict(id=[] if noid and rng.random() < .3 else [t], at=at, items=items))
    rng.shuffle(doc)
    d = Doc(doc, rng.randint(0, 5))
    out = [observe(d, doc, rng, atts, multi, seed)]
    while rng.random() < .3:     # and once it is changed
        change(d, doc, rng, atts, multi)
        out.append(observe(d, doc, rng, atts, multi, seed))
    return out


def change(d, doc, rng, atts, multi):
    """Changes the references, items and tiers of a document."""
    tids = [t['id'][0] for t in doc if t['id']] or ['nope']
    for _ in range(rng.choice([1, 2, 3, 5])):
        if not doc: return
        k = rng.randrange(len(doc))
        t, r = doc[k], d.tiers[k]
        how = rng.choice(['tier', 'tier', 'tier', 'item', 'item', 'gone', 'new', 'swap'])
        if how in ('tier', 'item'):
            if how == 'item':
                if not t['items']: continue
                j = rng.randrange(len(t['items']))
                t, r = t['items'][j], d.items[k][j]
            a = rng.choice(atts)
            t['at'] = [x for x in t['at'] if x[0] != a]
            if rng.random() < .35: r.attributes.pop(a, None)
            else:
                v = rng.choice(tids)
                if how == 'item': v = ' '.join(rng.sample([y['id'][0] for x in doc for y in x['items'] if y['id']] or ['nope'], 1))
                t['at'].append([a, v])
                if a != 'head' and rng.random() < .5: setattr(r, a, v)
                else: r.attributes[a] = v
        elif how == 'gone' and t['items']:
            j = rng.randrange(len(t['items']))
            del t['items'][j], d.items[k][j]
            r.pop(j)
        elif how == 'new' and t['items']:
            y = rng.choice(t['items'])
            y = dict(id=[], at=[list(x) for x in y['at']])
            t['items'].append(y)
            d.items[k].append(Item(attributes=dict(map(tuple, y['at'])), text='x'))
            r.append(d.items[k][-1])
        elif how == 'swap':      # another tier of that id in its place
            d.items[k] = [Item(id=un(i['id']), attributes=dict(map(tuple, i['at'])), text='x') for i in t['items']]
            d.tiers[k] = Tier(id=un(t['id']), type='x', attributes=dict(map(tuple, t['at'])), items=d.items[k])
            j = next(j for j, x in enumerate(d.igt) if x is r)
            if rng.random() < .5: d.igt[j] = d.tiers[k]
            else:
                d.igt.remove(r)
                d.igt.insert(j, d.tiers[k])
    d.igt.refresh_indices()


def observe(d, doc, rng, atts, multi, seed):
    n = len(doc)
    out = dict(anc=[], desc=[], sorts=[])
    full = lambda ti: list(range(1, len(d.items[ti - 1]) + 1))
    for _ in range(4):
        ti = rng.randint(1, n)
        st = rng.choice([None] + full(ti))
        o = d.start(ti, st)
        is_ = full(ti) if st is None else [st]
        ras = rng.sample(atts, rng.randint(1, 4)) if rng.random() < .8 else None
        steps, end = d.walk(query.ancestors, o, **({} if ras is None else dict(refattrs=ras)))
        out['anc'].append(dict(ti=ti, ras=ras or ['alignment', 'segmentation'], steps=steps, end=end, **{'is': is_}))
        if doc[ti - 1]['id']:
            ras = rng.sample(atts, rng.randint(1, 4)) if rng.random() < .8 else None
            fo = rng.choice(['first', 'all', None])
            kw = {} if ras is None else dict(refattrs=tuple(ras))
            if fo: kw['follow'] = fo
            steps, end = d.walk(query.descendants, o, **kw)
            out['desc'].append(dict(ti=ti, ras=ras or ['segmentation', 'alignment'], first=fo != 'all', steps=steps, end=end, **{'is': is_}))
    if not multi:
        for ras in (None, rng.sample(atts, rng.randint(1, 4))):
            d2 = Doc(doc, rng.randint(0, 5))
            got, again, intact = d2.sort(ras, default=ras is None)
            out['sorts'].append(dict(ras=ras or ['segmentation', 'alignment', 'content'], got=got, again=again, intact=intact))
    e = lambda at: [[a, cps(v)] for a, v in at]
    i = lambda x: [cps(y) for y in x]
    out['doc'] = [dict(id=i(t['id']), at=e(t['at']), items=[dict(id=i(y['id']), at=e(y['at'])) for y in t['items']]) for t in doc]
    out['seed'] = seed
    if not multi and rng.random() < .6:     # for good
        ras = d.ras = getattr(d, 'ras', None) if rng.random() < .7 and hasattr(d, 'ras') else rng.sample(atts, rng.randint(1, 4))
        got, again, intact = d.sort(ras)
        out['sorts'].append(dict(ras=ras, got=got, again=again, intact=intact))
        if intact and sorted(again) == list(range(1, n + 1)):
            doc[:] = [doc[k - 1] for k in again]
            d.tiers, d.items = [d.tiers[k - 1] for k in again], [d.items[k - 1] for k in again]
    return out


def canary(pid):
    def f(c):
        if pid == 'G01':
            for x in c['anc']:
                if x['steps']: x['steps'] = x['steps'][:-1]; return c
        elif pid == 'G02':
            for x in c['desc']:
                if x['steps']: x['steps'] = x['steps'] + x['steps'][-1:]; return c
        else:
            for x in c['sorts']:
                if len(x['got']) > 1: x['got'] = [x['got'][0]] + x['got'][:-1]; return c
    return f


def judge(ctx, cs):
    for i, m in validate_cases(ctx, 'Trace_RefGraph', cs, canary(ctx.pid)):
        if ctx.pid in m['bad']:
            k = dict(G01='anc', G02='desc', G03='sorts')[ctx.pid]
            ctx.violation('code gives %s; specified %s' % (cs[i][k], m['exp'][k]),
                          dict(t='rnd', seed=cs[i]['seed'], doc=cs[i]['doc']))


def run(ctx):
    cases = []
    for n, two, mode in ([(3, True, 'graph'), (4, False, 'graph'), (3, True, 'items')] if ctx.quick else
                         [(3, True, 'graph'), (5, False, 'graph'), (4, True, 'items')]):
        if ctx.quick and ctx.pid == 'G03' and mode == 'items': continue
        run_tlc(ctx, 'MC_RefGraph', 'INIT Init\nNEXT Next\nINVARIANTS Terminates Sorted\nCONSTRAINT Emit\n'
                + consts(N=n, Two=two, Mode=mode), collect=lambda t, p: cases.append(p), timeout=3000)
    if len(cases) < 3000: raise MachineryError('too few cases')
    cases.sort(key=lambda c: str(c['doc']))
    ctx.replayed += len(cases)
    ctx.sample(dict(kind='generated graph', doc=cases[7]['doc'], sort=cases[7]['sort']))
    for r in pmap(mc, list(enumerate(cases))):
        if r is not None:
            b = [x for x in r['bad'] if x[0] == ctx.pid]
            if b: ctx.violation('walk or order over a reference graph: %r' % (b[0][1:],), dict(t='mc', i=r['i'], case=r['case']))
    cs = [c for x in pmap(rnd, ['%s-%d' % (ctx.seed, i) for i in range(ctx.n(2600, 35000))]) for c in x]
    ctx.sample(dict(kind='random document', **{k: cs[1][k] for k in ('doc', 'anc')}))
    judge(ctx, cs)


def replay(ctx, case):
    if case['t'] == 'mc':
        r = mc((case['i'], case['case']))
        if r and any(x[0] == ctx.pid for x in r['bad']): ctx.violation('replayed', case)
    else: judge(ctx, [c for x in [case['seed']] + ['x%d' % k for k in range(20)] for c in rnd(x)])
