"""E03: values of items."""
import copy, random
from lib.core import MachineryError, call, consts, cps, pmap, run_tlc, uncps, validate_cases
from xigt import Igt, Tier, Item, XigtCorpus
from harness.exprs import VALS, IDS, rand_expr

CS = (('c', 'content'), ('s', 'segmentation'))


def result(t, v):
    if t == 'ok' and v is None: return dict(k='none', t=[])
    if t == 'ok' and isinstance(v, str): return dict(k='text', t=cps(v))
    if t == 'err': return dict(k='err', t=[])
    return dict(k='bad', t=[])


class Doc(object):
    """Real tiers beside plain ones: [id, c, s, items:[id, text, c, s]] with
    ids/texts as Python strings or None."""
    def __init__(self, plain, att, style=0):
        self.p, self.att = plain, att
        self.tiers = []
        for t in plain:
            a = {k: t[x] for x, k in CS if t[x] is not None}
            items = [self.mk(i) for i in t['items']]
            o = Tier(id=t['id'], attributes=a, items=items if style % 2 else None)
            self.tiers.append(o)
            if not style % 2: o.extend(items)
        self.igt = Igt(id='i', tiers=self.tiers) if att else None
        if att and style % 3 == 0: self.corpus = XigtCorpus(igts=[self.igt])

    @staticmethod
    def mk(i):
        if i['c'] is None or i['s'] is None:
            return Item(id=i['id'], text=i['text'], content=i['c'], segmentation=i['s'])
        return Item(id=i['id'], text=i['text'], attributes={'content': i['c'], 'segmentation': i['s']})

    def items(self):
        return [list(t) for t in self.tiers]

    def set(self, f, ti, ii, v):
        o = self.tiers[ti] if ii is None else self.tiers[ti][ii]
        pl = self.p[ti] if ii is None else self.p[ti]['items'][ii]
        pl[f] = v
        if f == 'text': o.text = v
        else:
            name = dict(CS)[f]
            if v is None: o.attributes.pop(name, None)
            elif len(v) % 2: setattr(o, name, v)
            else: o.attributes[name] = v

    def enc(self):
        i = lambda x: [0] if x is None else cps(x)
        o = lambda x: [] if x is None else [cps(x)]
        return [dict(id=i(t['id']), c=o(t['c']), s=o(t['s']),
                     items=[dict(id=i(x['id']), text=o(x['text']), c=o(x['c']), s=o(x['s'])) for x in t['items']])
                for t in self.p]

    def values(self):
        out = []
        for t in self.tiers:
            row = []
            for x in t:
                v = result(*call(x.value))
                v2 = v
                if x.id is not None: v2 = result(*call(lambda: t[x.id].get_content()))
                row.append(dict(v=v, v2=v2))
            out.append(row)
        return out


def plain(doc):
    u = lambda o: uncps(o[0]) if o else None
    return [dict(id=uncps(t['id']), c=u(t['c']), s=u(t['s']),
                 items=[dict(id=uncps(i['id']), text=u(i['text']), c=u(i['c']), s=u(i['s'])) for i in t['items']]) for t in doc]


def mc(x):
    i, c = x
    d = Doc(plain(c['doc']), True, i)
    if i % 2: d.values()
    e = c['edit']
    v = uncps(e['v'][0]) if e['v'] else None
    d.set(e['f'], e['ti'] - 1, e['ii'] - 1 if e['ii'] else None, v)
    got = d.values()
    if [[y['v'] for y in r] for r in got] != c['vals'] or [[y['v2'] for y in r] for r in got] != c['vals']:
        return dict(t='mc', i=i, case=c, got=got)


def rnd(seed):
    rng = random.Random(seed)
    nt = rng.choice([1, 2, 3, 4, 5]) if rng.random() < .97 else rng.choice([12, 40])
    att = rng.random() > .05
    p = []
    def expr(t):
        tgt = next((q for q in p if q['id'] == t), None)
        ids = [i['id'] for i in tgt['items'] if i['id']] if tgt else []
        if rng.random() < .06 or not ids: ids = ids + ['nope', 'a1x']
        if nt > 10: return rng.choice(ids) + rng.choice(['', '[0:9]'])
        while True:
            e, ok = rand_expr(rng, ids, False)
            if ok: return e
    def new_item(t, iid):
        i = dict(id=iid, text=None, c=None, s=None)
        if rng.random() < (.5 if not t['c'] and not t['s'] else .15): i['text'] = rng.choice(VALS)
        if rng.random() < .75 and (t['c'] or t['s'] or rng.random() < .1):
            f = 'c' if (t['c'] and rng.random() < .8) or not t['s'] else 's'
            if rng.random() < .04: f = 'cs'
            for g in f: i[g] = expr(t[g])
        return i
    for k in range(nt):
        t = dict(id='t%d' % k if rng.random() > .04 else None, c=None, s=None, items=[])
        for f, q in (('c', .5), ('s', .5)):
            if p and rng.random() < q: t[f] = rng.choice(p[-2:] if nt > 10 else p)['id']
            if rng.random() < .03: t[f] = 'nowhere'
        if nt > 10 and k: t['c'] = 't%d' % (k - 1); t['id'] = 't%d' % k
        ids = rng.sample(IDS, rng.choice([1, 2, 3, 4]))
        for iid in ids:
            t['items'].append(new_item(t, iid if rng.random() > .04 else None))
        p.append(t)
    rng.shuffle(p)
    d = Doc(p, att, rng.randint(0, 5))
    order = {t['id']: k for k, t in enumerate(sorted(p, key=lambda t: int((t['id'] or 't0')[1:])))}
    for _ in range(rng.choice([0, 1, 1, 2, 4, 7])):
        if rng.random() < .6: d.values()
        ti = rng.randrange(len(d.p))
        t = d.p[ti]
        r = rng.random()
        if rng.random() < .3:       # tiers and items come, go and change places
            how = rng.choice(['tier', 'tier', 'drop', 'item', 'item', 'again', 'rename', 'retier', 'move'])
            its = t['items']
            k = rng.randrange(len(its)) if its else None
            if how == 'tier':
                q = dict(t, items=[new_item(t, i) for i in rng.sample(IDS, rng.choice([1, 2, 3, 4]))])
                o = Tier(id=q['id'], attributes={y: q[x] for x, y in CS if q[x] is not None}, items=[d.mk(i) for i in q['items']])
                if att: d.igt[ti] = o
                d.p[ti], d.tiers[ti] = q, o
            elif how == 'drop' and nt > 1 and len(d.p) > 1:
                if att: del d.igt[ti]
                del d.p[ti], d.tiers[ti]
            elif how == 'item' and its:
                its[k] = new_item(t, its[k]['id']); d.tiers[ti][k] = d.mk(its[k])
            elif how == 'again' and its:
                x = d.tiers[ti].pop(k); d.tiers[ti].append(x); its.append(its.pop(k))
            elif how == 'rename' and its:
                iid = rng.choice(IDS)
                if all(i['id'] != iid for i in its):
                    its[k]['id'] = d.tiers[ti][k].id = iid
                    d.tiers[ti].refresh_index()
            elif how == 'retier' and att and t['id']:
                new = 't%d' % rng.choice([int(t['id'][1:]), 60 + ti])
                if all(q['id'] != new for q in d.p) and all(q[f] != new for q in d.p for f in 'cs'):
                    t['id'] = d.tiers[ti].id = new
                    d.igt.refresh_index()
            elif how == 'move' and its:
                tj = rng.randrange(len(d.p))
                if tj != ti and all(i['id'] is None or i['id'] != its[k]['id'] for i in d.p[tj]['items']):
                    x = d.tiers[ti][k]
                    d.tiers[ti].remove(x); d.tiers[tj].append(x)
                    d.p[tj]['items'].append(its.pop(k))
            continue
        if r < .4 and t['items']: d.set('text', ti, rng.randrange(len(t['items'])), rng.choice(VALS))
        elif r < .6 and t['items']:
            f = rng.choice('cs')
            d.set(f, ti, rng.randrange(len(t['items'])), expr(t[f]) if rng.random() < .8 and t[f] else None)
        elif r < .75:
            low = [q['id'] for q in d.p if t['id'] and q['id'] and int(q['id'][1:]) < int(t['id'][1:])]
            d.set(rng.choice('cs'), ti, None, rng.choice(low + [None, 'nowhere']))
        elif r < .85 and t['items']:
            k = rng.randrange(len(t['items']))
            del d.tiers[ti][k]; del t['items'][k]
        elif r < .95:
            iid = rng.choice(IDS)
            if all(i['id'] != iid for i in t['items']):
                i = new_item(t, iid)
                k = rng.randint(0, len(t['items']))
                t['items'].insert(k, i); d.tiers[ti].insert(k, d.mk(i))
        elif att:
            d.igt.remove(d.tiers[ti]); d.igt.append(d.tiers[ti])
            d.tiers.append(d.tiers.pop(ti)); d.p.append(d.p.pop(ti))
    got = d.values()
    spans, loose, by = [], [], []
    cells = [(ti, ii) for ti, t in enumerate(d.p) for ii in range(len(t['items']))]
    for _ in range(3):
        if cells:
            ti, ii = rng.choice(cells)
            a, b = rng.choice([0, 1, 2, -1, -2, 5]), rng.choice([0, 1, 2, 3, 10, -1, -3])
            spans.append(dict(ti=ti + 1, ii=ii + 1, a=a, b=b, got=result(*call(d.tiers[ti][ii].span, a, b))))
            ti, ii = rng.choice(cells)
            fs, f = rng.choice(['', 'c', 's', 'cs', 'sc', 'sc']), rng.choice('cs')
            x = d.tiers[ti][ii]
            names = [dict(CS)[g] for g in fs]
            by.append(dict(ti=ti + 1, ii=ii + 1, fs=list(fs), got=result(*call(x.value, rng.choice([list, tuple])(names) if fs else rng.choice([None, (), []]))),
                           f=f, ref=result(*call(x.resolve_ref, dict(CS)[f]))))
    i = new_item(d.p[0], 'loose')
    x = d.mk(i)
    loose.append(dict(x=dict(id=cps('loose'), text=[] if i['text'] is None else [cps(i['text'])],
                             c=[] if i['c'] is None else [cps(i['c'])], s=[] if i['s'] is None else [cps(i['s'])]),
                      got=result(*call(x.value))))
    return dict(doc=d.enc(), att=att, got=got, spans=spans, loose=loose, by=by, seed=seed)


def canary(c):
    for row in c['got']:
        for v in row:
            if v['v']['k'] == 'text':
                v['v']['t'] = v['v']['t'] + [33]
                return c


def judge(ctx, cs):
    for i, m in validate_cases(ctx, 'Trace_Resolve', cs, canary):
        ctx.violation('value at %s differs; specified %s %r' % (m['at'], m['exp']['k'], uncps(m['exp']['t'])),
                      dict(t='rnd', seed=cs[i]['seed'], case=cs[i]))


def run(ctx):
    cases = []
    run_tlc(ctx, 'MC_Resolve', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS OwnTextWins Detached BareTier\nACTION_CONSTRAINT Emit\n'
            + consts(Depth=ctx.n(2, 3)), collect=lambda t, p: cases.append(p))
    if len(cases) < 3000: raise MachineryError('too few cases')
    cases.sort(key=str)
    ctx.replayed += len(cases)
    ctx.sample(dict(kind='generated edit', edit=cases[5]['edit'], vals=cases[5]['vals']))
    for r in pmap(mc, list(enumerate(cases))):
        if r is not None: ctx.violation('values after an edit', r)
    cs = pmap(rnd, ['%s-%d' % (ctx.seed, i) for i in range(ctx.n(4000, 60000))])
    n = {}
    for c in cs:
        for row in c['got']:
            for v in row: n[v['v']['k']] = n.get(v['v']['k'], 0) + 1
    ctx.notes['recorded_values'] = n
    ctx.sample(dict(kind='recorded document', doc=cs[0]['doc'], got=cs[0]['got']))
    judge(ctx, cs)


def replay(ctx, case):
    if case['t'] == 'mc':
        if mc((case['i'], case['case'])) is not None: ctx.violation('replayed', case)
    else: judge(ctx, [rnd(case['seed'])] + [rnd('x%d' % k) for k in range(20)])
