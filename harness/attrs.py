"""A01 A02: attribute lookup, metadata lookup, selection."""
import random
from lib.core import MachineryError, call, consts, pmap, run_tlc, validate_cases
from harness.docs import Gen, build, node, walk, asc
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

KINDS = [['corpus', 'igt', 'tier', 'item'], ['corpus', 'igt', 'tier', 'metadata', 'meta', 'child', 'child', 'child'],
         ['corpus', 'igt', 'metadata', 'meta', 'child', 'child'], ['corpus', 'metadata', 'meta', 'child', 'child']]


def paths(n):
    return [k[i:i + n] for k in KINDS for i in range(len(k) - n + 1)]


def fkey(k):
    return '{%s}%s' % tuple(k) if k[0] else k[1]


def chain(kinds, objs, order):
    """Real objects of the kinds, each owned by the one before."""
    out = []
    for i, (k, o) in enumerate(zip(kinds, objs)):
        out.append(build(node(k, id=None if k == 'child' else 'o%d' % i, name='n' if k == 'child' else '',
                              attrs={fkey(a): v for a, v in o['at']}, map=None if not o['map'] else dict(map(tuple, o['map'][0])))))
    idx = list(range(len(out) - 1))
    if order: idx.reverse()
    for i in idx:
        a, b = out[i], out[i + 1]
        if isinstance(b, Metadata):
            if order: a.metadata = [b]
            else: a.metadata.append(b)
        else: a.append(b)
    return out


def ask(o, q, inh, rng):
    key = '{%s}%s' % (q['uri'], q['local']) if q['uri'] else '%s:%s' % (q['pre'], q['local']) if q['pre'] else q['local']
    D = object()
    kw = {}
    if q['ns']: kw['namespace'] = q['ns'][0]
    elif rng.random() < .3: kw['namespace'] = None
    if inh or rng.random() < .5: kw['inherit'] = inh
    t, v = call(o.get_attribute, key, D, **kw) if rng.random() < .5 else call(o.get_attribute, key, default=D, **kw)
    t2, v2 = call(o.get_attribute, key, **kw)
    if t != 'ok' or t2 != 'ok': return ['error']
    if v is D: return [] if v2 is None else ['default']
    return [asc(v)] if v == v2 else ['differs']


def mc_attr(x):
    i, c = x
    rng = random.Random(i)
    ps = paths(len(c['ch']))
    objs = chain(ps[i % len(ps)], c['ch'], i % 2)
    for a in c['ans']:
        got = ask(objs[a['n'] - 1], a['q'], a['inh'], rng)
        if got != a['v']: return dict(i=i, case=dict(c, ans=[a]), got=got, exp=a['v'], kinds=ps[i % len(ps)])


def become(r, was, o, rng):
    """Give an object other attributes and another prefix table."""
    at = {fkey(a): v for a, v in o['at']}
    if at == {fkey(a): v for a, v in was['at']} and rng.random() < .6: pass
    elif rng.random() < .4: r.attributes = at
    else:
        for a in list(r.attributes):
            if a not in at or rng.random() < .3: del r.attributes[a]
        r.attributes.update(at)
    m = None if not o['map'] else dict(map(tuple, o['map'][0]))
    if was['map'] == o['map'] and rng.random() < .8: return
    if was['map'] and m is not None and rng.random() < .4:      # the same table, edited
        r.nsmap.clear()
        r.nsmap.update(m)
        return
    r.nsmap = m
    if m and rng.random() < .3:     # its own table, so it can be edited
        p = rng.choice(sorted(m))
        del r.nsmap[p]
        r.nsmap[p] = m[p]


CONDS = {'a': lambda m: 'a' in m.attributes, 'b': lambda m: m.text == 'b'}


def mk_levels(levels, kinds):
    objs, metas = [], []
    for l, k in zip(levels, kinds):
        mds, mm = [], []
        for j, md in enumerate(l):
            ms = [Meta(type=m['type'][0] if m['type'] else None, attributes={'a': '1'} if 'a' in m['has'] else {},
                       text='b' if 'b' in m['has'] else 'z') for m in md['metas']]
            mm.append(ms)
            mds.append(Metadata(type=md['type'][0] if md['type'] else None, metas=ms))
        o = dict(corpus=XigtCorpus, igt=Igt, tier=Tier)[k](id='x', metadata=mds or None)
        if objs: objs[-1].append(o)
        objs.append(o); metas.append(mm)
    return objs, metas


def ask_meta(objs, metas, n, key, conds, inh, rng):
    D = object()
    cs = [CONDS[c] for c in conds]
    kw = {}
    if cs or rng.random() < .5: kw['conditions'] = cs
    if not inh or rng.random() < .5: kw['inherit'] = inh
    o = objs[n - 1]
    t, v = call(o.get_meta, key, default=D, **kw)
    t2, v2 = call(o.get_meta, key, **kw)
    if t != 'ok' or t2 != 'ok': return [-1, []]
    if v is D: return [] if v2 is None else [-2, []]
    try:
        pos = [[(l + 1, j + 1, k + 1) for l, mds in enumerate(metas) for j, ms in enumerate(mds) for k, m in enumerate(ms) if m is z] for z in v]
        ls = {p[0][0] for p in pos}
        if len(ls) != 1 or len(list(v2)) != len(pos) or any(a is not b for a, b in zip(v, v2)): return [-3, []]
        return [ls.pop(), [[p[0][1], p[0][2]] for p in pos]]
    except Exception:
        return [-4, []]


def mc_meta(x):
    i, c = x
    rng = random.Random(i)
    ks = [['corpus', 'igt'], ['igt', 'tier']] if len(c['ch']) == 2 else [['corpus', 'igt', 'tier']]
    objs, metas = mk_levels(c['ch'], ks[i % len(ks)])
    for a in c['ans']:
        got = ask_meta(objs, metas, a['n'], a['key'], a['conds'], a['inh'], rng)
        if got != a['r']: return dict(i=i, case=dict(c, ans=[a]), got=got, exp=a['r'])


def rnd(seed):
    rng = random.Random(seed)
    U = ['u1', 'http://x.org/a#', 'p', 'urn:b']
    P = ['p', 'q', 'r', 'u1']
    L = ['k', 'doc-id', 'p', 'a.b']
    ks = rng.choice(KINDS)
    n = rng.randint(1, len(ks)); st = rng.randint(0, len(ks) - n)
    objs = []
    for j in range(n):
        m = []
        if rng.random() < .4:
            ps = rng.sample(P, rng.randint(0, 3))
            m = [[[p, rng.choice(U)] for p in ps]]
        keys = {}
        for _ in range(rng.choice([0, 1, 2, 4])): keys[(rng.choice([''] + U), rng.choice(L))] = rng.choice(['v%d' % j, '', 'x', 'é'])
        objs.append(dict(map=m, at=[[list(k), v] for k, v in sorted(keys.items())]))
    qs = []
    for _ in range(6):
        q = dict(local=rng.choice(L), uri='', pre='', ns=[])
        r = rng.random()
        if r < .2: q['uri'] = rng.choice(U)
        elif r < .4: q['pre'] = rng.choice(P)
        elif r < .75: q['ns'] = [rng.choice(P + U)]
        qs.append((rng.randint(1, n), q, rng.random() < .65))
    if rng.random() < .6: real = chain(ks[st:st + n], objs, rng.randint(0, 1))
    else:       # another chain, asked already, that becomes this one
        was = [dict(map=o['map'] if rng.random() < .4 else rng.choice(objs)['map'], at=(o if rng.random() < .4 else rng.choice(objs))['at']) for o in objs]
        real = chain(ks[st:st + n], was, rng.randint(0, 1))
        for k, q, inh in qs: ask(real[k - 1], q, inh, rng)
        for r, w, o in rng.sample(list(zip(real, was, objs)), n): become(r, w, o, rng)
    at = [dict(n=k, q=q, inh=inh, got=ask(real[k - 1], q, inh, rng)) for k, q, inh in qs]
    out = dict(chain=[dict(map=o['map'], at=[[k, asc(v)] for k, v in o['at']]) for o in objs], at=at)
    # metadata
    kinds = rng.choice([['corpus'], ['igt'], ['tier'], ['corpus', 'igt'], ['igt', 'tier'], ['corpus', 'igt', 'tier']])
    md = lambda: dict(type=rng.choice([['xigt-meta'], ['xigt-meta'], ['x'], []]),
                      metas=[dict(type=rng.choice([['x'], ['y'], ['author'], []]), has=rng.choice([[], ['a'], ['b'], ['a', 'b']]))
                             for _ in range(rng.randint(0, 4))])
    levels = [[md() for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in kinds]
    qs = [(rng.randint(1, len(kinds)), rng.choice(['x', 'y', 'author', 'z']), rng.choice([[], [], ['a'], ['b'], ['a', 'b']]), rng.random() < .6) for _ in range(4)]
    if rng.random() < .6: ro, rm = mk_levels(levels, kinds)
    else:       # asked already with other types
        other = [[dict(type=md()['type'], metas=[dict(x, type=rng.choice([['x'], ['y'], []])) for x in m['metas']]) for m in l] for l in levels]
        ro, rm = mk_levels(other, kinds)
        for k, key, conds, inh in qs: ask_meta(ro, rm, k, key, conds, inh, rng)
        for o, l in zip(ro, levels):
            for x, m in zip(o.metadata, l):
                x.type = m['type'][0] if m['type'] else None
                for y, z in zip(x.metas, m['metas']): y.type = z['type'][0] if z['type'] else None
    meta = [dict(n=k, key=key, conds=conds, inh=inh, got=ask_meta(ro, rm, k, key, conds, inh, rng)) for k, key, conds, inh in qs]
    out.update(levels=levels, meta=meta)
    # selection
    sel = []
    g = Gen(rng)
    for _ in range(2):
        kind = rng.choice(['corpus', 'igt', 'tier', 'metadata', 'meta', 'child', 'mdlist'])
        con, members, up = selectable(kind, g, rng)
        xs = list(con)
        ms = members
        table = up.nsmap
        for j in range(3):
            if j and xs and rng.random() < .4:
                m = rng.choice([m for m in ms if m not in ('id', 'name')])
                setattr(rng.choice(xs), m, getattr(rng.choice(xs), m))
            elif j and xs and rng.random() < .3:
                xs.insert(0, xs.pop()); con.insert(0, con.pop())
            if j and rng.random() < .3:     # another table
                t = up
                while t.nsmap == {} and getattr(t, '_parent', None) is not None: t = t._parent
                new = rng.choice([{}, {'dc': 'urn:q', 'q': 'urn:dc'}, {'q': 'urn:r'}, {'dc': 'urn:dc', 'w': 'urn:q'}])
                if rng.random() < .5: t.nsmap = new
                else: up.nsmap = new
                table = up.nsmap
            rec = [[[m, enc(getattr(o, m))] for m in ms] for o in xs]
            req = {}
            for m in rng.sample(ms, rng.randint(0, min(3, len(ms)))):
                vals = [getattr(o, m) for o in xs] + ['nope']
                if m == 'namespace':
                    vals += list(table) * 2
                req[m] = rng.choice(vals)
            t, v = call(lambda: list(con.select(**req)))
            if t == 'ok': got = [next((k for k, o in enumerate(xs, 1) if o is z), -1) for z in v]
            else: got = [-2]
            sel.append(dict(table=[[asc(a), asc(b)] for a, b in table.items()], xs=rec, req=[[m, enc(v)] for m, v in req.items()], got=got))
    out['sel'] = sel
    out['seed'] = seed
    return out


def enc(v):
    return [] if v is None else [asc(v)] if isinstance(v, str) else ['!' + asc(repr(v))]


def selectable(kind, g, rng):
    scope = {'dc': 'urn:dc', 'q': 'urn:q'}
    ns = lambda: rng.choice([None, 'urn:dc', 'urn:q', 'urn:r'])
    T = lambda: rng.choice([None, 'a', 'b', 'words'])
    n = rng.randint(0, 6)
    own = rng.random() < .6
    m = dict(scope) if own else None
    if kind == 'tier':
        con = Tier(id='t', nsmap=m, items=[Item(id='i%d' % k if rng.random() < .8 else None, type=T(), text=T(), namespace=ns(),
                   alignment=T(), content=T()) for k in range(n)])
        mem = ['id', 'type', 'text', 'namespace', 'alignment', 'content', 'segmentation']
        up = Igt(id='u')
    elif kind == 'igt':
        con = Igt(id='t', nsmap=m, tiers=[Tier(id='i%d' % k if rng.random() < .8 else None, type=T(), namespace=ns(), segmentation=T()) for k in range(n)])
        mem = ['id', 'type', 'namespace', 'alignment', 'segmentation']
        up = XigtCorpus(id='u')
    elif kind == 'corpus':
        con = XigtCorpus(nsmap=scope if own else None, igts=[Igt(id='i%d' % k if rng.random() < .8 else None, type=T(), namespace=ns()) for k in range(n)])
        mem = ['id', 'type', 'namespace']
        return con, mem, con
    elif kind == 'metadata':
        con = Metadata(nsmap=m, metas=[Meta(id='i%d' % k if rng.random() < .5 else None, type=T(), text=T(), namespace=ns()) for k in range(n)])
        mem = ['id', 'type', 'text', 'namespace']
        up = Igt(id='u')
    elif kind == 'mdlist':
        up = Igt(id='u', nsmap=scope if own else None, metadata=[Metadata(id='i%d' % k if rng.random() < .5 else None, type=T(), namespace=ns()) for k in range(n)])
        if not own: XigtCorpus(nsmap=scope, igts=[up])
        return up.metadata, ['id', 'type', 'namespace'], up
    else:
        kids = [MetaChild(rng.choice(['a', 'b', 'c']), text=T(), namespace=ns()) for k in range(n)]
        con = Meta(id='t', nsmap=m, children=kids) if kind == 'meta' else MetaChild('t', nsmap=m, children=kids)
        mem = ['name', 'text', 'namespace', 'type']
        up = Metadata(id='u') if kind == 'meta' else Meta(id='u')
    if not own:
        up.nsmap = scope
        if kind == 'metadata': up.metadata = [con]
        else: up.append(con)
    return con, mem, con


def canary(pid):
    def f(c):
        if pid == 'A01':
            for a in c['at']:
                if a['got'] and a['q']['pre'] == '': a['got'] = ['zzz']; return c
        else:
            for a in c['meta']:
                if a['got']: a['got'] = []; return c
    return f


def judge(ctx, cs):
    for i, m in validate_cases(ctx, 'Trace_Attributes', cs, canary(ctx.pid)):
        if ctx.pid in m['bad']:
            ctx.violation('lookup differs: %s' % {k: v for k, v in m['exp'].items() if v}, dict(t='rnd', seed=cs[i]['seed'], case=cs[i]))


def run(ctx):
    cases = []
    mode = 'attr' if ctx.pid == 'A01' else 'meta'
    for n in ([2, 3] if mode == 'meta' or not ctx.quick else [1, 2, 3]) if ctx.quick else [1, 2, 3]:
        run_tlc(ctx, 'MC_Attributes', 'INIT Init\nNEXT Next\nINVARIANTS NoInherit SameKey NearestLevel\nCONSTRAINT Emit\n'
                + consts(N=max(n, 2) if mode == 'meta' else n, Mode=mode), collect=lambda t, p: cases.append(p))
    if len(cases) < 3000: raise MachineryError('too few cases')
    cases.sort(key=str)
    if mode == 'meta' and ctx.quick: cases = ctx.sub('pick').sample(cases, 4000)
    f = mc_attr if mode == 'attr' else mc_meta
    rep = 1 if ctx.quick else len(paths(3))
    ctx.replayed += len(cases) * rep
    ctx.sample(dict(kind='generated owner chain', case=dict(cases[11], ans=cases[11]['ans'][:3])))
    for r in pmap(f, [(i + k, c) for k in range(rep) for i, c in enumerate(cases)]):
        if r is not None: ctx.violation('lookup along owners: code %s, specified %s' % (r['got'], r['exp']), dict(t='mc', i=r['i'], case=r['case']))
    cs = pmap(rnd, ['%s-%d' % (ctx.seed, i) for i in range(ctx.n(5000, 80000))])
    ctx.sample(dict(kind='random', chain=cs[3]['chain'], at=cs[3]['at'][:2], meta=cs[3]['meta'][:2]))
    judge(ctx, cs)


def replay(ctx, case):
    if case['t'] == 'mc':
        f = mc_attr if ctx.pid == 'A01' else mc_meta
        if any(f((case['i'] + k, case['case'])) for k in range(20)): ctx.violation('replayed', case)
    else: judge(ctx, [rnd(case['seed'])] + [rnd('x%d' % k) for k in range(20)])
