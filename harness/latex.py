"""L01 L02: the LaTeX exporter."""
import contextlib, io, json, logging, os, random, re, shutil, tempfile
from lib.core import MachineryError, asc, call, consts, cps, pmap, run_tlc, uncps, validate_cases
from xigt import XigtCorpus, Igt, Tier, Item
from xigt.codecs import xigtxml
from xigt.exporters import latex
from harness import front
from xigt.scripts import xigt_export
from harness import codec
from harness.docs import build, node
from harness.xpath import flat

SCRATCH = None
HEAD = '\n\\documentclass{article}\n\\usepackage{gb4e}\n\\begin{document}\n'
FOOT = '\n\\end{document}\n'
TYPES = ['words', 'morphemes', 'glosses']


def quiet(f, *a):
    """Run f without the log; restore logging."""
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            return call(f, *a, limit=20)
    finally:
        for h in logging.root.handlers[:]: logging.root.removeHandler(h)
        logging.root.setLevel(logging.WARNING)


# ---------------------------------------------------------------- generated

def gen01(x):
    c, k = x
    ts, tab = c['c']['ts'], c['out']['tab']
    name = {}
    tiers = []
    for t, its in enumerate(ts):
        items = []
        for i in its:
            u = uncps(i['id'][0]); name[i['n']] = u
            refs = (' ', ',', '+')[k % 3].join(map(uncps, i['refs']))
            at = {}
            if refs or k % 2: at['alignment' if k % 4 < 3 else 'segmentation'] = refs
            items.append(Item(id=u, text=u, attributes=at))
        # the content of segmentations would be the segments
        tiers.append(Tier(id='abc'[t], type=TYPES[t], items=items))
    igt = Igt(id='i', tiers=tiers)
    exp = ['\\begin{exe}\\small', '\\ex\\glll'] + [' '.join('{%s}' % ' '.join(name[i['n']] for i in col[r]) for col in tab) + '\\\\' for r in range(3)] + ['\\end{exe}']
    t, v = quiet(lambda: '\n'.join(latex.export_corpus(XigtCorpus(igts=[igt]), latex.prepare_config(None))))
    if t != 'ok' or v.split('\n') != exp:
        return ('tiers %s: exported %s, specified %r' % ([[(i['n'], [uncps(r) for r in i['refs']]) for i in s] for s in ts], repr(v), exp), dict(t='gen01', c=c, k=k))


def gen02(x):
    c, k = x
    s, e = uncps(c['c']['s']), uncps(c['out']['e'])
    t, v = call(latex.escape, s)
    if t != 'ok' or v != e: return ('escape(%r) is %r, specified %r' % (s, v, e), dict(t='gen02', c=c, k=k))


# ------------------------------------------------------------------- random

WORDS = ['a', 'dog', 'ta-ma', '3.PL', 'PST_x', '{}', '\\', '~', '^', '50%', '$x', '#1', '&', 'two words', 'été', '日本', '\\alpha', '{a}', 'x^2~', ' ', '\U0001d11e', '%%', '\\\\', 'a}b{', '']


def rigt(rng, gi, wild):
    """An IGT with monotone alignments, mostly."""
    tiers = []
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5])
    rows = []
    for ti in range(n):
        typ = rng.choice(TYPES * 3 + ['Words', 'GLOSSES', 'pos', 'phrases', 'odin', None])
        if rng.random() < .1: typ = 'translations'
        tid = 't%d' % ti if rng.random() < .95 else None
        items = []
        tgt = rng.choice(rows[-1:] * 4 + rows) if rows else None
        refa = rng.choice(['alignment', 'alignment', 'segmentation'])
        at = {refa: tgt['id'][0]} if tgt and tgt['id'] else {}
        if rng.random() < .1 and rows and rows[0]['id']: at['content'] = rows[0]['id'][0]
        lo = 0
        for ii in range(rng.choice([0, 1, 2, 3, 4, 5, 6]) if not tgt or rng.random() < .3 else len(tgt['ch'])):
            a = {}
            have = [x['id'][0] for x in tgt['ch'] if x['id']] if tgt else []
            if have and rng.random() < .85:
                lo = min(len(have) - 1, lo + rng.choice([0, 0, 1, 1, 1, 1, 2]))
                if wild: lo = rng.randrange(len(have))
                ids = have[lo:lo + rng.choice([1, 1, 1, 1, 2, 2, 3])]
                if len(ids) > 2 and rng.random() < .3: del ids[1]
                if rng.random() < .1: ids.reverse()
                e = ''
                for j, i in enumerate(ids):
                    e += (rng.choice([',', '+', ' ']) if j else '') + i
                    if rng.random() < .25: e += rng.choice(['[0:1]', '[1:2]', '[0:1,1:2]'])
                a[refa] = e
                if len(ids) > 1 and rng.random() < .7: lo = have.index(ids[-1])
                if rng.random() < .08: a['alignment'] = ''
                # both: the alignment counts
                if rng.random() < .15:
                    o = 'segmentation' if refa == 'alignment' else 'alignment'
                    a[o] = rng.choice([rng.choice(have), have[lo], 'zz'])
                    if o == 'segmentation' and tgt['id']: at[o] = tgt['id'][0]
            elif rng.random() < .2:
                a[refa] = rng.choice(['zz', '', 'zz yy', 'yy zz', 'yy'])
                if have and rng.random() < .3: a['segmentation' if refa == 'alignment' else 'alignment'] = have[lo]
            text = rng.choice(WORDS) if not (refa in a and refa == 'segmentation' and rng.random() < .5) and rng.random() < .92 else None
            items.append(node('item', id='t%di%d' % (ti, ii) if rng.random() < .93 else None, attrs=a, text=text))
        t = node('tier', id=tid, type=typ, attrs=at, ch=items)
        tiers.append(t)
        if typ and typ.lower() in TYPES: rows.append(t)
    while rng.random() < .4:
        tiers.insert(rng.randint(0, len(tiers)), node('tier', id='x%d' % len(tiers), type=rng.choice(['translations', 'translations', 'translations', 'Translations', 'translations-en', 'translation', 'free-translations']),
                     ch=[node('item', id='x%d-%d' % (len(tiers), j), text=rng.choice(WORDS + [None])) for j in range(rng.choice([0, 1, 1, 2]))]))
    return node('igt', id=rng.choice(['g%d', 'i-%d', 'i.%dé']) % gi if rng.random() < .9 else None, ch=tiers)


def rsubs(rng):
    out, cfg = [], []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        pre = rng.choice(['', '', 'words', 'g', 'trans', 'x'])
        ps, rx = [], []
        for _ in range(rng.choice([1, 1, 2])):
            f, t = rng.choice(['a', 'PST', '\\{', '.', '}', '-', ' ', '\\\\', 'dog']), rng.choice(['', 'b', '\\textsc{x}', '\\\\', ' ', 'aa'])
            ps.append(dict(f=cps(f), t=cps(t)))
            rx.append([re.escape(f), t.replace('\\', '\\\\') if rng.random() < .6 else ['m', repr(t)]])
        out.append(dict(pre=cps(pre), ps=ps)); cfg.append([re.escape(pre) if pre else rng.choice(['', '.*']), rx])
    return out, cfg


def rnd01(seed):
    rng = random.Random(seed)
    wild = rng.random() < .05
    igts = [rigt(rng, k, wild) for k in range(rng.choice([0, 1, 1, 1, 2]))]
    d = node('corpus', id='c', map={}, ch=igts)
    types = TYPES
    config = None
    items, tiers = [], []
    if rng.random() < .5:
        config = {}
        if rng.random() < .4: config['tier_types'] = types = rng.choice([['words', 'glosses'], ['glosses', 'morphemes', 'words', 'pos'], ['words'], ['pos', 'words', 'phrases'], []])
        if rng.random() < .6: items, config['item_substitutions'] = rsubs(rng)
        if rng.random() < .6: tiers, config['tier_substitutions'] = rsubs(rng)
    case = dict(t='file', o=dict(types=[cps(t) for t in types], items=items, tiers=tiers), head=cps(HEAD), foot=cps(FOOT), text=[])
    how = rng.choice(['script', 'script', 'api', 'parts'])
    tmp = tempfile.mkdtemp(dir=SCRATCH)
    try:
        outp = os.path.join(tmp, 'o.tex')
        if how == 'script':
            text = codec.encoded(d, rng)
            p = os.path.join(tmp, 'a.xml')
            with open(p, 'wb') as f: f.write(text)
            o = xigtxml.loads(text)
            args = ['-i', p, '-o', outp] + (['-f', 'latex'] if rng.random() < .5 else []) + (['-v'] if rng.random() < .3 else [])
            if config is not None:
                with open(os.path.join(tmp, 'c.json'), 'w') as f: json.dump(config, f)
                args += ['-c', os.path.join(tmp, 'c.json')]
            t, v = quiet(front.main, xigt_export, args)
        else:
            o = build(d, rng)
            t, v = quiet(latex.xigt_export, o, outp, config)
        # what is in the file is what the document says
        f, _ = flat(d, o)
        if how == 'script': f = reflat(o)
        if t == 'ok':
            with open(outp, encoding='utf-8', newline='') as fh: case['text'] = cps(fh.read())
        case.update(doc=f, ok='' if t == 'ok' else asc('%s: %r' % (t, v))[:300])
    finally: shutil.rmtree(tmp)
    return dict(case, src=dict(t='rnd01', seed=seed, config=config))


def reflat(o):
    from harness.docs import enc
    return flat(enc(o), o)[0]


def rnd02(seed):
    rng = random.Random(seed)
    cs = []
    for _ in range(10):
        s = ''.join(rng.choice(WORDS + ['\n', '\t', '"', '{}', '\\textbackslash', '\\&', '<', '|', '\x00', '\ud7ff']) if rng.random() < .6 else chr(rng.choice([rng.randint(32, 126), rng.randint(32, 126), rng.randint(1, 0xd7ff), rng.randint(0x10000, 0x10ffff)]))
                    for _ in range(rng.choice([0, 1, 2, 5, 10, 40])))
        t, v = call(latex.escape, s)
        cs.append(dict(t='esc', s=cps(s), ok='' if t == 'ok' else asc('%s: %r' % (t, v))[:300], text=cps(v) if t == 'ok' else [], src=dict(t='rnd02', seed=seed, s=s)))
    return cs


def canary(c):
    if c['ok'] or not c['text']: return None
    if c['t'] == 'esc':
        c['text'].append(97); return c
    if len(c['doc'][0]['ch']) == 1 and not c['doc'][c['doc'][0]['ch'][0] - 1]['ch']:
        c['text'].append(97); return c


def judge(ctx, cs):
    keep = [{k: v for k, v in c.items() if k != 'src'} for c in cs]
    for i, m in validate_cases(ctx, 'Trace_Latex', keep, canary, per=6, batch=6000, timeout=1200):
        c = cs[i]
        ctx.violation('%s: %s; got %r; specified %r' % (json.dumps(c['src'])[:600], m['bad'], uncps(c['text'])[:2500], uncps(m['exp'])[:2500]), c['src'])


def run(ctx):
    global SCRATCH
    codec.SCRATCH = SCRATCH = ctx.scratch
    cases = []
    mode = dict(L01='table', L02='escape')[ctx.pid]
    n = ctx.n((2, 3, 2), (3, 3, 3))
    run_tlc(ctx, 'MC_Latex', 'INIT Init\nNEXT Next\nINVARIANTS Once Even Aligned Alone Finest Reads Parts\nCONSTRAINT Emit\n'
            + consts(Mode=mode, N1=n[0], N2=n[1], N3=n[2], Len0=ctx.n(4, 5)),
            collect=lambda t, p: cases.append(p), timeout=2500, heap='10g')
    if len(cases) < 1000: raise MachineryError('too few cases')
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.notes['generated_cases'] = len(cases)
    if len(cases) > 150000: cases = ctx.sub('pick').sample(cases, 150000)
    ctx.replayed += len(cases)
    for r in pmap(gen01 if ctx.pid == 'L01' else gen02, [(c, k) for k, c in enumerate(cases)]):
        if r: ctx.violation(*r)
    if ctx.pid == 'L01':
        cs = pmap(rnd01, ['L01%s-%d' % (ctx.seed, k) for k in range(ctx.n(3000, 30000))])
    else:
        cs = [c for x in pmap(rnd02, ['L02%s-%d' % (ctx.seed, k) for k in range(ctx.n(400, 5000))]) for c in x]
    ctx.sample(dict(kind='exported' if ctx.pid == 'L01' else 'escaped', text=uncps(cs[4]['text'])[:1500]))
    judge(ctx, cs)


def replay(ctx, case):
    global SCRATCH
    codec.SCRATCH = SCRATCH = ctx.scratch
    if case['t'][:3] == 'gen':
        r = dict(gen01=gen01, gen02=gen02)[case['t']]((case['c'], case['k']))
        ctx.replayed += 1
        if r: ctx.violation(*r)
    elif case['t'] == 'rnd01': judge(ctx, [rnd01(case['seed'])] + [rnd01('x%d' % k) for k in range(60)])
    else: judge(ctx, rnd02(case['seed']))
