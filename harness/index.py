"""C05 C06: lookups in an IGT and the reference relation."""
import copy, random
from lib.core import MachineryError, call, consts, cps, pmap, run_tlc, uncps, validate_traces
from xigt import Igt, Tier, Item, XigtCorpus, ref
from xigt.errors import XigtError, XigtLookupError
from harness.exprs import rand_expr

STD = ('alignment', 'content', 'segmentation')


class Doc(object):
    """A real IGT with a mirror (list of [tier, [items]]) kept by plain list
    edits. render turns a mention value of the specification into text."""
    def __init__(self, doc, render, style):
        self.render, self.style = render, style
        self.m = [[self.tier(t), None] for t in doc]
        for r, t in zip(self.m, doc): r[1] = list(r[0])
        self.igt = Igt(id='i', tiers=[r[0] for r in self.m])
        if style % 3 == 0: self.corpus = XigtCorpus(igts=[self.igt])
        self.gone = []

    def attrs(self, at):
        return {a: self.render(v) for a, v in at}

    def item(self, y):
        return Item(id=un(y['id']), attributes=self.attrs(y['at']), text='x')

    def tier(self, x):
        return Tier(id=un(x['id']), attributes=self.attrs(x['at']), items=[self.item(y) for y in x['items']])

    def edit(self, e, rng):
        op, ti, ii = e['op'], e['ti'] - 1, e['ii'] - 1
        g = self.igt
        if op == 'addtier':
            t = self.tier(e['x'])
            if ti == len(self.m) and rng.random() < .5: g.append(t)
            else: g.insert(ti, t)
            self.m.insert(ti, [t, list(t)])
        elif op == 'deltier':
            t = self.m.pop(ti)[0]; self.gone.append(t)
            r = rng.random()
            if r < .3: g.remove(t)
            elif r < .6 and t.id: del g[t.id]
            else: del g[ti]
        elif op == 'settier':
            t = self.tier(e['x'])
            self.gone.append(self.m[ti][0])
            g[ti] = t
            self.m[ti] = [t, list(t)]
        elif op == 'clear':
            t = self.m[ti][0]
            if rng.random() < .5: t.clear()
            else: t.items = []
            self.gone += self.m[ti][1]; self.m[ti][1] = []
        elif op == 'reverse':
            self.m.reverse()
            if rng.random() < .5: g.reverse()
            else: g.tiers = [r[0] for r in self.m]
        elif op == 'additem':
            t, its = self.m[ti]
            y = self.item(e['y'])
            if ii == len(its) and rng.random() < .5: t.append(y)
            else: t.insert(ii, y)
            its.insert(ii, y)
        elif op == 'delitem':
            t, its = self.m[ti]
            y = its.pop(ii); self.gone.append(y)
            r = rng.random()
            if r < .3: t.remove(y)
            elif r < .6 and y.id: del t[y.id]
            else: del t[ii]
        elif op == 'setitem':
            y = self.item(e['y'])
            self.gone.append(self.m[ti][1][ii])
            self.m[ti][0][ii] = y
            self.m[ti][1][ii] = y
        elif op == 'move':
            y = self.m[ti][1].pop(ii)
            self.m[ti][0].remove(y)
            self.m[e['tj'] - 1][0].append(y)
            self.m[e['tj'] - 1][1].append(y)
        elif op in ('rename', 'attr', 'unattr'):
            o = self.m[ti][0] if ii < 0 else self.m[ti][1][ii]
            if op == 'rename':
                o.id = un(e['id'])
                (g if ii < 0 else self.m[ti][0]).refresh_index()
            elif op == 'attr':
                v = self.render(e['v'])
                if e['a'] in STD and rng.random() < .5: setattr(o, e['a'], v)
                else: o.attributes[e['a']] = v
            else: o.attributes.pop(e['a'], None)
        elif op != 'none': raise MachineryError(op)

    def refresh(self, rng):
        if rng.random() < .5: self.igt.refresh_indices()
        else: self.igt.refresh_indices(tiers=True)

    def pos(self, o):
        if o is None: return []
        for ti, (t, its) in enumerate(self.m, 1):
            if o is t: return [ti, 0]
            for ii, y in enumerate(its, 1):
                if o is y: return [ti, ii]
        return [-1, -1]

    def all_ids(self):
        out = []
        for t, its in self.m:
            for o in [t] + its:
                if o.id is not None and o.id not in out: out.append(o.id)
        return out

    def lookup(self, f, i):
        t, v = call(f, i)
        if t != 'ok': return [-2, -2], 'err'
        p = self.pos(v)
        D = object()
        t, w = call(f, i, D)
        t2, w2 = call(f, i, default=D)
        good = t == 'ok' and t2 == 'ok' and (w is D if v is None else w is v) and (w2 is D if v is None else w2 is v)
        return p, 'ok' if good else 'default'

    def ask(self, i, atts, rng, enc=lambda s: s):
        """Everything the IGT answers about id i."""
        g = self.igt
        r = dict(id=enc(i))
        r['item'], c1 = self.lookup(g.get_item, i)
        r['any'], c2 = self.lookup(g.get_any, i)
        r['cls'] = 'ok' if c1 == c2 == 'ok' else c1 + c2
        t, obj = call(g.get_any, i)
        raised = []
        def get(f, *a, **k):
            t, v = call(f, *a, **k)
            raised.append(isinstance(v, XigtLookupError) if t == 'err' else None if t == 'ok' else 'hang')
            if t == 'err' and not isinstance(v, XigtLookupError): raised[-1] = 'other'
            return v if t == 'ok' and isinstance(v, dict) else {}
        allatt = tuple(atts)
        kind = rng.randrange(3)
        lists = [allatt] if kind == 0 else [list(allatt)] if kind == 1 else [(a,) for a in allatt]
        def gather(f, *pre):
            d = {}
            for l in lists: d.update(get(f, *pre, refattrs=l))
            return d
        ents, ers = gather(g.referents, i), gather(g.referrers, i)
        dents, ders = get(ref.referents, g, i), get(ref.referrers, g, i)
        o1 = o2 = c = k = {}
        if t == 'ok' and obj is not None:
            o1, o2 = gather(obj.referents), gather(obj.referrers)
            c, k = get(g.referents, i), get(g.referrers, i)
            c2, k2 = get(obj.referents), get(obj.referrers)
            if nz(c2) != nz(c) or nz(k2) != nz(k): r['cls'] += '-object'
        if 'other' in raised or 'hang' in raised: r['cls'] = 'error'
        r['raised'] = any(raised)
        if r['raised'] and not all(raised): r['raised'] = None
        f = lambda d, a: [enc(x) if isinstance(x, str) else x for x in (d.get(a) or [])]
        r['q'] = [dict(a=a, std=a in STD, ents=f(ents, a), ers=f(ers, a), cents=f(c, a), cers=f(k, a), dents=f(dents, a),
                       ders=f(ders, a), objents=f(o1, a), objers=f(o2, a)) for a in atts]
        return r


def nz(d):
    return {k: list(v) for k, v in d.items() if v}


def un(o):
    return o[0] if o else None


def mc(x):
    i, c = x
    rng = random.Random(i)
    style = rng.randrange(3)
    render = lambda v: (' ', ',', '+')[style].join(v) if style < 2 or len(v) < 1 else '+'.join('%s[0:1]' % w for w in v)
    d = Doc(c['doc'], render, i)
    d.edit(c['edit'], rng)
    d.refresh(rng)
    bad = set()
    for nm, a in c['ans'].items():
        r = d.ask(nm, STD, rng)
        if r['item'] != a['item'] or r['any'] != a['any'] or r['cls'] != 'ok': bad.add('C05')
        if r['raised'] is not (not a['known']): bad.add('C06')
        for q in r['q']:
            if not a['known']: continue
            for f in 'ents cents dents objents'.split():
                if q[f] != a['ents'][q['a']]: bad.add('C06')
            for f in 'ers cers ders objers'.split():
                v = q[f] if c['u'] else list(dict.fromkeys(q[f]))
                if v != a['ers'][q['a']]: bad.add('C06')
    t, v = call(d.igt.get_item, None)
    if t == 'ok' and v is not None: bad.add('C05')
    if bad: return dict(bad=sorted(bad), i=i, case=c)


POOL = ['a', 'b', 'a1', 'b-1', 'w.1', 'x_y', 'Zé', 'm1', 'm11', 'g2']
TPOOL = ['t', 'u', 'w', 'm', 'g-1', 't1']


def session(seed):
    rng = random.Random(seed)
    atts = list(STD) + ['head']
    clash = rng.random() < .25
    dup = rng.random() < .3
    def value():
        r = rng.random()
        if r < .08: return rng.choice(['', ' ', '  '])
        ids = POOL + (TPOOL if clash or r < .2 else [])
        if r < .6: return ' '.join(rng.choice(ids) for _ in range(rng.randint(1, 4)))
        return rand_expr(rng, ids, True)[0]
    def tvalue():
        return rng.choice(TPOOL) if rng.random() < .85 else ' '.join(rng.choice(TPOOL) for _ in range(2)) if rng.random() < .7 else value()
    def mkattrs(f, p):
        return [[a, cps(f())] for a in atts if rng.random() < p]
    def item(used):
        c = [i for i in POOL + (TPOOL if clash else []) if i not in used]
        i = [] if rng.random() < .12 or not c else [rng.choice(c)]
        used.update(i)
        return dict(id=[cps(x) for x in i], at=mkattrs(value, .4))
    def itemids(doc, ti=None):
        return set(uncps(y['id'][0]) for k, t in enumerate(doc) for y in t['items'] if y['id'] and (ti is None or k == ti))
    def avoid(doc, ti):
        return itemids(doc, ti if dup else None)
    def tier(doc, keep=None):
        c = [i for i in TPOOL + (POOL if clash else []) if all(t['id'] != [cps(i)] for t in doc)]
        i = [] if rng.random() < .1 or not c else [rng.choice(c)]
        used = set() if dup else itemids(doc)
        return dict(id=[cps(x) for x in i], at=mkattrs(tvalue, .5), items=[item(used) for _ in range(rng.randint(0, 4))])
    doc = []
    for _ in range(rng.choice([0, 1, 2, 3, 4])): doc.append(tier(doc))
    conv = lambda x: dict(x, id=[uncps(i) for i in x['id']])
    def convt(t): return dict(conv(t), items=[conv(y) for y in t['items']])
    d = Doc([convt(t) for t in doc], uncps, rng.randrange(3))
    doc0 = copy.deepcopy(doc)
    No = dict(op='none', ti=1, ii=0, tj=0, a='', v=[], id=[], x=dict(id=[], at=[], items=[]), y=dict(id=[], at=[]))
    past = set()
    def observe():
        ids = d.all_ids()
        ids += [x for x in sorted(past) if x not in ids] + [x for x in ('zz', 'a', 't') if x not in ids and x not in past]
        ids = ids if len(ids) <= 8 else rng.sample(ids, 8)
        o = []
        for i in ids:
            r = d.ask(i, atts, rng, cps)
            if r['raised'] is None: r['cls'] += '-raise'; r['raised'] = False
            o.append(r)
        t, v = call(d.igt.get_item, None)
        none = [] if t != 'ok' else d.pos(v)
        de = []
        for ti, (tt, its) in enumerate(d.m, 1):
            for ii, x in enumerate([tt] + its):
                for a in atts:
                    if a in x.attributes and rng.random() < .5:
                        t, al = call(ref.dereference_all, x, a)
                        t2, fi = call(ref.dereference, x, a)
                        de.append(dict(ti=ti, ii=ii, a=a, all=[d.pos(z) for z in al] if t == 'ok' else [[-2, -2]],
                                       first=d.pos(fi) if t2 == 'ok' else [-2, -2]))
        # objects without an IGT or an id have no references to ask for
        out = [Item(id='lone', alignment='a1'), Item(alignment='a1'), Tier(id='lone', alignment='t'), Tier(items=[Item(id='lone')])]
        out += [out[-1][0]] + [x for tt, its in d.m for x in [tt] + its if x.id is None][:2]
        lone = all(isinstance(call(f)[1], XigtError) for x in out for f in (x.referents, x.referrers))
        return dict(o=o, none=none, deref=de, lone=lone)
    ev = [dict(e=No, obs=[observe()])]
    for _ in range(rng.randint(1, 8)):
        past.update(d.all_ids())
        n = len(doc)
        e = dict(No)
        op = rng.choice(['addtier', 'deltier', 'settier', 'additem', 'additem', 'delitem', 'setitem', 'clear', 'move',
                         'rename', 'rename', 'attr', 'attr', 'unattr', 'reverse'])
        if op == 'addtier' or n == 0:
            op = 'addtier'
            e.update(ti=rng.randint(1, n + 1), x=tier(doc)); doc.insert(e['ti'] - 1, e['x'])
        else:
            ti = rng.randrange(n); t = doc[ti]; e['ti'] = ti + 1
            if op == 'deltier': doc.pop(ti)
            elif op == 'settier':
                e['x'] = tier(doc[:ti] + doc[ti + 1:]); doc[ti] = e['x']
            elif op == 'reverse': doc.reverse()
            elif op == 'clear': t['items'] = []
            elif op == 'additem':
                e['ii'] = rng.randint(1, len(t['items']) + 1); e['y'] = item(avoid(doc, ti)); t['items'].insert(e['ii'] - 1, e['y'])
            elif op in ('delitem', 'setitem', 'move') and t['items']:
                ii = rng.randrange(len(t['items'])); e['ii'] = ii + 1
                if op == 'delitem': t['items'].pop(ii)
                elif op == 'setitem': e['y'] = item(avoid(doc, ti)); t['items'][ii] = e['y']
                else:
                    tj = rng.randrange(n)
                    y = t['items'][ii]
                    if tj == ti or (y['id'] and any(z['id'] == y['id'] for z in doc[tj]['items'])): continue
                    e['tj'] = tj + 1; t['items'].pop(ii); doc[tj]['items'].append(y)
            elif op in ('rename', 'attr', 'unattr'):
                ii = rng.randint(0, len(t['items'])); e['ii'] = ii
                o = t if ii == 0 else t['items'][ii - 1]
                if op == 'rename':
                    if ii == 0: new = tier(doc[:ti] + doc[ti + 1:])['id']
                    else: new = item(avoid([dict(q, items=[z for z in q['items'] if z is not o]) for q in doc], ti))['id']
                    e['id'] = new; o['id'] = new
                else:
                    e['a'] = rng.choice(atts)
                    o['at'] = [q for q in o['at'] if q[0] != e['a']]
                    if op == 'attr':
                        e['v'] = cps(tvalue() if ii == 0 else value()); o['at'].append([e['a'], e['v']])
            else: continue
        e['op'] = op
        # private copies: later edits of the mirror must not change the event
        e = copy.deepcopy(e)
        r = dict(e, id=[uncps(i) for i in e['id']], x=convt(e['x']), y=conv(e['y']))
        d.edit(r, rng)
        obs = []
        if rng.random() < .75:
            d.refresh(rng)
            obs = [observe()]
        ev.append(dict(e=e, obs=obs))
    return dict(doc=doc0, ev=ev, seed=seed)


def canary(pid):
    def f(t):
        for ev in t['ev']:
            for ob in ev['obs']:
                for o in ob['o']:
                    if pid == 'C05' and o['item']:
                        o['item'] = []
                        return t
                    if pid == 'C06':
                        for q in o['q']:
                            if q['ers']:
                                q['ers'] = q['ers'] + q['ers'][:1] + [[122, 122]]
                                return t
    return f


def judge(ctx, ts):
    for m in validate_traces(ctx, 'Trace_IgtIndex', ts, canary(ctx.pid)):
        if ctx.pid in m['bad']:
            t = m['trace']
            ctx.violation('event %d of an edit session: specified %s' % (m['l'], m['exp']),
                          dict(t='rnd', seed=t['seed'], doc=t['doc'], ev=t['ev'][:m['l']]))


def run(ctx):
    cases = []
    run_tlc(ctx, 'MC_IgtIndex', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS InverseRelation Sound OnceEach\nACTION_CONSTRAINT Emit\n'
            + consts(Depth=2, MaxItems=ctx.n(2, 3)), collect=lambda t, p: cases.append(p))
    if len(cases) < 3000: raise MachineryError('too few cases')
    cases.sort(key=str)
    ctx.replayed += len(cases)
    ctx.sample(dict(kind='generated edit', edit=cases[9]['edit'], answers_about_a=cases[9]['ans']['a']))
    for r in pmap(mc, list(enumerate(cases))):
        if r is not None and ctx.pid in r['bad']:
            ctx.violation('answers of a refreshed IGT after edit %s' % r['case']['edit']['op'], dict(t='mc', **r))
    ts = pmap(session, ['%s-%d' % (ctx.seed, i) for i in range(ctx.n(1500, 20000))])
    for b in range(0, len(ts), 4000):
        judge(ctx, ts[b:b + 4000])


def replay(ctx, case):
    if case['t'] == 'mc':
        r = mc((case['i'], case['case']))
        if r is not None and ctx.pid in r['bad']: ctx.violation('replayed', case)
    else: judge(ctx, [session(case['seed'])] + [session('x%d' % k) for k in range(20)])
