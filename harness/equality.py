"""C04: structural equality."""
import random, re, unicodedata
from lib.core import MachineryError, call, consts, pmap, run_tlc, validate_cases
from harness import docs
from harness.docs import Gen, build, node, esc, walk, CH, HAS_MD
import copy


def compare(x):
    """Build both objects and compare them in every way."""
    a, b, seed = x
    rng = random.Random(seed)
    if seed % 3 == 0:       # prefix tables are not part of equality
        b = copy.deepcopy(b)
        for n in walk(b):
            if n['k'] != 'other' and rng.random() < .3:
                n['map'] = [[['zz', 'urn:zz%d' % rng.randint(1, 9)]]]
    pa = other(a, None, rng) if a['k'] == 'other' else build(a, rng)
    warm = lambda o: call(lambda: (o == pa, pa == o))
    if a['k'] != 'other' and rng.random() < .3: pa = docs.remade(a, rng, warm)
    pb = other(b, pa, rng) if b['k'] == 'other' else docs.remade(b, rng, warm) if rng.random() < .3 else build(b, rng)
    if seed % 2 == 0 and a['k'] in ('igt', 'tier', 'item') and a['k'] != 'other':   # owners are not either
        up = {'igt': 'corpus', 'tier': 'igt', 'item': 'tier'}[a['k']]
        box = build(node(up, id='box', attrs={'o': '1'}))
        box.append(pa)
    ok, res = True, {}
    for k, f in (('eq', lambda: pa == pb), ('qe', lambda: pb == pa), ('ne', lambda: pa != pb), ('en', lambda: pb != pa)):
        t, v = call(f)
        if t != 'ok' or v not in (True, False):
            ok, v = False, False
        res[k] = bool(v)
    t, v = call(lambda: pa == pa and not (pa != pa))
    if a['k'] != 'other' and not (t == 'ok' and v): ok = False
    res['ok'] = ok
    return res


def other(n, pa, rng):
    opts = [None, 5, 'x', [], {}, object(), (), True]
    if pa is not None and hasattr(pa, '__iter__'):
        opts += [list(pa), tuple(pa)]
    return rng.choice(opts)


def near(t, rng, ident=False):
    """A string that is almost the given one (still an id or a name)."""
    i = rng.randrange(len(t) + 1)
    alts = [t.swapcase(), t.upper(), t.lower(), t[:i] + t[i:].swapcase(), t + '0', t + t[-1:], t[:-1], t + t, t[:i] + t[i + 1:],
            t[:1] + t[:0:-1], unicodedata.normalize('NFC', t), t.replace('-', '_').replace('.', '-'), t + '-', t.casefold()]
    if not ident:
        alts += [t + ' ', ' ' + t, t.strip(), ' '.join(t.split()), unicodedata.normalize('NFD', t), t + '\n', t.replace('0', '00'), t + '.0',
                 t.rstrip('/'), t + '/', t.rstrip('#'), t + '\u200b', t[1:], t[i:] + t[:i], t.replace('\xe9', 'e')]
    alts = [x for x in alts if x != t and (not ident or re.match(r'[a-zA-Z][-.\w]*$', x))]
    return rng.choice(alts) if alts else t + 'x'


def mutate(n, rng):
    n = copy.deepcopy(n)
    m = rng.choice(list(walk(n)))
    k = m['k']
    ops = ['id', 'type', 'ns', 'attr', 'attr', 'attrdel']
    if k in ('item', 'meta', 'child'): ops += ['text', 'text']
    if k == 'child': ops += ['name']
    if m['ch']: ops += ['drop', 'swap', 'dup']
    if m['md']: ops += ['mddrop', 'mdswap']
    if k in HAS_MD: ops += ['mdadd']
    o = rng.choice(ops)
    if rng.random() < .4:       # only slightly different
        was = [f for f in ('id', 'type', 'ns', 'text') if m[f]] + ['name'] * bool(m['name']) + ['attrs'] * bool(m['attrs'])
        if was:
            f = rng.choice(was)
            if f == 'name': m['name'] = near(m['name'], rng, True)
            elif f == 'attrs':
                m['attrs'] = [list(x) for x in m['attrs']]
                x = rng.choice(m['attrs'])
                j = rng.randint(0, 1)
                new = near(x[j], rng, j == 0)
                if j or new not in [y[0] for y in m['attrs']]: x[j] = new
                m['attrs'].sort()
            else: m[f] = [near(m[f][0], rng, f == 'id')]
            return n
    flip = lambda v, alts: [] if v and rng.random() < .3 else [rng.choice([x for x in alts if [x] != v])]
    if o == 'id': m['id'] = flip(m['id'], ['zz1', 'zz2'])
    elif o == 'type': m['type'] = flip(m['type'], ['zt', 'words', ''])
    elif o == 'ns': m['ns'] = flip(m['ns'], ['urn:zz', 'urn:p', ''])
    elif o == 'text': m['text'] = flip(m['text'], ['', 'zz', (m['text'] or ['q'])[0] + ' '])
    elif o == 'name': m['name'] = rng.choice(['zz', m['name'] + 'x'])
    elif o == 'attr':
        if m['attrs'] and rng.random() < .6:
            i = rng.randrange(len(m['attrs']))
            m['attrs'] = [list(x) for x in m['attrs']]
            m['attrs'][i][1] += rng.choice([' ', 'x'])
        else:
            m['attrs'] = sorted([list(x) for x in m['attrs'] if x[0] != 'zk'] + [['zk', rng.choice(['', 'v'])]])
    elif o == 'attrdel': m['attrs'] = m['attrs'][1:]
    elif o == 'drop': del m['ch'][rng.randrange(len(m['ch']))]
    elif o == 'swap': m['ch'].reverse()
    elif o == 'dup':
        c = copy.deepcopy(m['ch'][-1]); c['id'] = []
        m['ch'].append(c)
    elif o == 'mddrop': del m['md'][-1]
    elif o == 'mdswap': m['md'].reverse()
    elif o == 'mdadd': m['md'].append(node('metadata'))
    return n


def rand_pair(seed):
    rng = random.Random(seed)
    g = Gen(rng)
    k = rng.choice(['corpus', 'corpus', 'igt', 'tier', 'item', 'metadata', 'meta', 'child'])
    a = g.any(k)
    style = rng.random()
    if style < .3: b = copy.deepcopy(a)
    elif style < .75:
        b = mutate(a, rng)
        if rng.random() < .2: b = mutate(b, rng)
    elif style < .85: b = g.any(rng.choice(['corpus', 'igt', 'tier', 'item', 'metadata', 'meta', 'child']))
    elif style < .93:
        b = copy.deepcopy(a)
        k2 = rng.choice([x for x in ('item', 'meta', 'child') if x != a['k']])
        b['k'] = k2; b['md'] = []
        b['name'] = 'n' if k2 == 'child' else ''
        if k2 == 'item' or a['k'] not in ('meta', 'child'): b['ch'] = []
        if rng.random() < .5: a = dict(copy.deepcopy(a), ch=[], md=[])
    else: b = node('other')
    if rng.random() < .5: a, b = b, a
    if a['k'] == 'other': a, b = b, a
    r = compare((a, b, rng.randint(0, 10 ** 9)))
    return dict(r, a=strip(esc(a)), b=strip(esc(b)), seed=seed)


def strip(n):
    n['map'] = []
    for k in ('md', 'ch'):
        for x in n[k]: strip(x)
    return n


def mc_case(x):
    i, c = x
    r = compare((c['a'], c['b'], i))
    e = c['eq']
    if not (r['ok'] and r['eq'] == e and r['qe'] == e and r['ne'] == (not e) and r['en'] == (not e)):
        return dict(c, i=i, got=r)


def canary(c):
    c['eq'] = not c['eq']
    return c


def run(ctx):
    cases = []
    run_tlc(ctx, 'MC_Equality', 'INIT Init\nNEXT Next\nINVARIANTS Reflexive Symmetric ExactlyIdentical\nCONSTRAINT Emit\n',
            collect=lambda t, p: cases.append(p))
    if len(cases) < 500:
        raise MachineryError('too few cases')
    ctx.replayed += len(cases) * 6
    ctx.sample(dict(kind='generated pair', case=cases[0]))
    for r in pmap(mc_case, [(i + 6 * k, c) for k in range(2) for i in range(3) for c in cases]):
        if r is not None:
            ctx.violation('comparison of two objects', dict(t='mc', i=r['i'], case={k: r[k] for k in 'a b eq'.split()}, got=r['got']))
    n = ctx.n(6000, 60000)
    cs = pmap(rand_pair, ['%s-%d' % (ctx.seed, i) for i in range(n)])
    for i, m in validate_cases(ctx, 'Trace_Equality', cs, canary):
        ctx.violation('comparison of two random objects: expected equal=%s' % m['exp'], dict(t='r', seed=cs[i]['seed'], case=cs[i]))
    ctx.sample(dict(kind='random pair', case={k: cs[1][k] for k in ('eq', 'ne', 'a')}))
    ctx.notes['equal_pairs'] = sum(c['eq'] for c in cs)


def replay(ctx, case):
    if case['t'] == 'mc':
        if mc_case((case['i'], case['case'])) is not None: ctx.violation('replayed', case)
    else:
        cs = [rand_pair(case['seed'])]
        for i, m in validate_cases(ctx, 'Trace_Equality', cs, canary): ctx.violation('replayed', case)
