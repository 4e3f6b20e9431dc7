"""E01 E02 E04: reference expressions."""
import random, warnings
from lib.core import MachineryError, call, consts, cps, pmap, run_tlc, uncps, validate_cases
from xigt import Igt, Tier, Item, ref
from xigt.errors import XigtAttributeError, XigtWarning

VALS = ['xyz', None, '', 'a', 'dog cat', 'éжx', '日本語', '0123456789', ' pad ', 'a[0:1]', '\U00010300z', 'x,y+z', 'ﬁn\u0301']


class Holder(object):
    """Tiers and IGTs whose items have the given values (text, or a value
    computed through content)."""
    def __init__(self, pairs, style=0):
        self.src = Tier(id='src', items=[Item(id='z%d' % k, text=v) for k, (i, v) in enumerate(pairs)])
        self.tier = Tier(id='t', content='src')
        for k, (i, v) in enumerate(pairs):
            if style % 2 == 1 and v is not None:
                self.tier.append(Item(id=i, content='z%d' % k))
            else:
                self.tier.append(Item(id=i, text=v))
        self.igt = Igt(id='i', tiers=[self.src, self.tier])
        self.look(pairs)

    def look(self, pairs):
        self.vals = [dict(id=cps(i), v=dict(k='text' if v is not None else 'none', t=cps(v or ''))) for i, v in pairs]


    def revalue(self, rng):
        """Give items other values."""
        pairs = []
        for k, i in enumerate(self.tier):
            if rng.random() < .5:
                v = rng.choice(VALS)
                if i.text is None and v is not None: self.src[k].text = v
                else: i.text = v
                if v is None: i.attributes.pop('content', None)
            pairs.append((i.id, i.text if 'content' not in i.attributes or i.text is not None else self.src[k].text))
        if rng.random() < .3:       # or other items
            k = rng.randrange(len(pairs))
            self.tier[k] = Item(id=pairs[k][0], text=VALS[0])
            self.igt.refresh_indices()
            pairs[k] = (pairs[k][0], VALS[0])
        self.look(pairs)


def res(t, v):
    if t == 'ok' and isinstance(v, str): return dict(k='text', t=cps(v))
    if t == 'err': return dict(k='err', t=[])
    return dict(k='bad', t=[])


def from_list(v):
    return [cps(x) for x in v]


def older(e, h, seed):
    """What the deprecated functions do with it."""
    def conv(v):
        if isinstance(v, str): return dict(t=cps(v), span=[])
        i, a, b = v
        if type(a) is not int or type(b) is not int: raise ValueError(v)
        return dict(t=cps(i), span=[a, b])
    def lst(f, c):
        t, v = call(f, e)
        try: return [c(x) for x in v] if t == 'ok' else [repr(v)]
        except Exception: return ['?']
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        text = res(*call(ref.resolve_alignment_expression, e, h.tier))
    al = []
    tiers = [h.src, h.tier]
    for k, (t, name) in enumerate([(h.tier, 'content'), (h.src, 'content'), (h.tier, 'alignment'), (h.src, 'x')]):
        if k == 2: t.attributes[name] = ['src', 't', 'no', 'z0'][len(e) % 4]
        v = t.attributes.get(name)
        want = 'error' if v is None else v if v in ('src', 't') else 'none'
        ty, g = call(ref.get_aligned_tier, t, name)
        if k == 2: del t.attributes[name]
        if ty == 'ok': got = 'none' if g is None else next((x.id for x in tiers if x is g), '?')
        else: got = 'error' if isinstance(g, XigtAttributeError) and t.id in str(g) else repr(g)
        al.append(dict(want=want, got=got))
    return dict(ids=lst(ref.get_alignment_expression_ids, cps), spans=lst(ref.get_alignment_expression_spans, conv), text=text,
                warns=any(issubclass(x.category, XigtWarning) for x in w), al=al)


def observe(e, h, dores=True, dorew=True, old=False):
    """What the code does with expression e."""
    d = dict(e=cps(e), vals=h.vals if dores else [], res=dores, rew=dorew, ok=True)
    n = dict(k='none', t=[])
    def get(f, *a, conv=cps, bad=None, **k):
        t, v = call(f, *a, **k)
        if t == 'ok':
            try:
                r = conv(v)
                if isinstance(v, list):     # the list is the caller's
                    v.reverse()
                    v.append('zz')
                    if conv(call(f, *a, **k)[1]) != r: raise ValueError('shared')
                return v, r
            except Exception:
                pass
        d['ok'] = False
        return '', ([] if bad is None else bad)
    if dores:
        d['tier'] = res(*call(ref.resolve, h.tier, e))
        d['igt'] = res(*call(ref.resolve, h.igt, e))
    else:
        d['tier'] = d['igt'] = n
    for k in 'x xx c cx cc sel seln sp spn ids'.split(): d[k] = []
    d['rx'] = d['rc'] = n
    d['old'] = [older(e, h, len(e))] if old else []
    if dorew:
        x, d['x'] = get(ref.expand, e)
        _, d['xx'] = get(ref.expand, x)
        c, d['c'] = get(ref.compress, e)
        cx, d['cx'] = get(ref.compress, x)
        _, d['cc'] = get(ref.compress, cx)
        _, d['sel'] = get(ref.selections, e, conv=from_list)
        _, d['seln'] = get(ref.selections, e, keep_delimiters=False, conv=from_list)
        _, d['sp'] = get(ref.spans, e, conv=from_list)
        _, d['spn'] = get(ref.spans, e, keep_delimiters=False, conv=from_list)
        _, d['ids'] = get(ref.ids, e, conv=from_list)
        if dores:
            d['rx'] = res(*call(ref.resolve, h.tier, x))
            d['rc'] = res(*call(ref.resolve, h.tier, c))
    return d


def mc(x):
    i, e, pid = x
    vs = [VALS[(i * 3 + k * 5) % len(VALS)] for k in range(3)]
    h = Holder(list(zip(['a', 'a1', 'b-1'], vs)), style=i)
    return observe(uncps(e), h, True, pid == 'E02', pid == 'E04')


IDS = ['a', 'a1', 'b-1', 'w2.m1', 'x_y', 'Zé', 'q日1', 'longer-id.with_parts', 'a-', 'b.', 'A1', 'a11']


def rand_expr(rng, ids, multi):
    """(expression, can it be resolved)"""
    res, out = True, ''
    num = lambda: str(rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 12, 100, -1, -2, -3, '007', '-0', '00']))
    if rng.random() < .25: out += rng.choice([' ', '  ', '\t', '\n', '\u3000', '\u00a0'])
    for k in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
        if k:
            r = rng.random()
            if r < .7: out += rng.choice(',+ ')
            elif r < .8 or not multi: out += rng.choice([';', '|', '/', '&', '=', '\u3001', '\u00d7', '\t', '\n', '(', '*', '\\'])
            elif r < .93: out += rng.choice(['  ', '   ', ' \t', '\n ', '\r\n'])
            else:
                out += rng.choice([', ', ' ,', '+ ', '; ', ' + ', ',+', '||'])
                res = False
        i = rng.choice(ids) if rng.random() < .9 or k == 0 else last
        last = i
        out += i
        if rng.random() < .6:
            sp = []
            for j in range(rng.choice([1, 1, 2, 3])):
                d = '' if j == 0 else rng.choice([',', '+', ',', '+', ' ', ';', '|', '/', '\n'])
                sp.append('%s%s:%s' % (d, num(), num()))
            out += '[' + ''.join(sp) + ']'
    if rng.random() < .25: out += rng.choice([' ', '  ', '\t', '\n', '\u3000'])
    return out, res


def rnd(x):
    seed, pid = x
    rng = random.Random(seed)
    n = rng.choice([1, 2, 3, 5])
    ids = rng.sample(IDS, n)
    h = Holder([(i, rng.choice(VALS)) for i in ids], style=rng.randint(0, 1))
    use = list(ids)
    if rng.random() < .15:          # ids that do not exist, be it just so
        i = rng.choice(ids)
        use += [x for x in rng.sample(['zz', i + '.', i + '-', i + '_', i.swapcase(), i + '0', i + 'x', i[:-1], i + i], 2) if x and x not in ids]
    if rng.random() < .02: e, r = rng.choice(['', ' ', '\n']), True
    else: e, r = rand_expr(rng, use if rng.random() < .7 else use[:1], pid == 'E02')
    if pid in ('E01', 'E04') and not r: e = ids[0]; r = True
    if rng.random() < .3:       # asked before, with other values
        observe(e, h, r, pid == 'E02', pid == 'E04')
        h.revalue(rng)
    return dict(observe(e, h, r, pid == 'E02', pid == 'E04'), seed=seed)


def canary(pid):
    def f(c):
        if pid == 'E01':
            if c['tier']['k'] == 'text':
                c['tier']['t'] = c['tier']['t'] + [33]
                return c
        elif pid == 'E04':
            if c['old'][0]['text']['t']:
                c['old'][0]['text']['t'] = c['old'][0]['text']['t'][:-1]
                return c
        elif len(c['x']) > 6:
            c['x'] = c['x'][:-1] + [43, 97]
            return c
    return f


def judge(ctx, cs, t):
    for i, m in validate_cases(ctx, 'Trace_Expr', cs, canary(ctx.pid), batch=12000):
        if 'DOMAIN' in m['bad']: raise MachineryError('expression outside the domain: %r' % uncps(cs[i]['e']))
        if ctx.pid in m['bad']:
            c = cs[i]
            got = {k: uncps(c[k]) for k in ('x', 'c')}
            if c['old']: got['older'] = c['old'][0]
            got.update({k: (c[k]['k'], uncps(c[k]['t'])) for k in ('tier', 'igt', 'rx', 'rc')})
            ctx.violation('expression %r: code gives %s; specified: resolves to %s %r, expands to %r, compresses to %r'
                          % (uncps(c['e']), got, m['exp']['res']['k'], uncps(m['exp']['res']['t']), uncps(m['exp']['x']), uncps(m['exp']['c'])),
                          dict(t=t, e=uncps(c['e']), seed=c.get('seed'), case=c))


def run(ctx):
    cases = []
    for a in ([(2, 2, False), (3, 1, False)] if ctx.quick else [(2, 2, False), (4, 1, False), (2, 1, True), (1, 3, True)]):
        r = run_tlc(ctx, 'MC_Expr', 'INIT Init\nNEXT Next\nINVARIANTS Faithful Laws OldAgrees\nCONSTRAINT Emit\n'
                    + consts(MaxSel=a[0], MaxSpan=a[1], Wide=a[2]), collect=lambda t, p: cases.append(p['e']), timeout=3000)
    if len(cases) < 1000: raise MachineryError('too few cases')
    cases = sorted(set(map(tuple, cases)))
    if ctx.quick and len(cases) > 9000:
        cases = cases[:3000] + ctx.sub('pick').sample(cases[3000:], 6000)
    elif len(cases) > 150000:
        cases = ctx.sub('pick').sample(cases, 150000)
    ctx.replayed += len(cases)
    ctx.sample(dict(kind='generated expression', e=uncps(cases[len(cases) // 2])))
    cs = pmap(mc, [(i, e, ctx.pid) for i, e in enumerate(cases)])
    judge(ctx, cs, 'mc')
    cs = pmap(rnd, [('%s-%d' % (ctx.seed, i), ctx.pid) for i in range(ctx.n(5000, 80000))])
    ctx.sample(dict(kind='random expression', e=uncps(cs[0]['e']), vals=cs[0]['vals'], resolved=cs[0]['tier']))
    judge(ctx, cs, 'rnd')


def replay(ctx, case):
    if case['t'] == 'rnd': cs = [rnd((case['seed'], ctx.pid))]
    else:
        cs = [mc((i, cps(case['e']), ctx.pid)) for i in range(len(VALS))]
    judge(ctx, cs + [observe('a1[0:2],a1', Holder([('a1', 'xyz')]), True, ctx.pid == 'E02', ctx.pid == 'E04')], case['t'])
