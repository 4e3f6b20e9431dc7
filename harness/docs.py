"""Documents as plain data ("nodes"), builders into real xigt objects and
encoders back.

node: dict(k, id, type, ns, name, attrs, text, md, ch, map)
  k: corpus igt tier item metadata meta child other
  id, type, ns, text: [] or [string]; attrs: sorted [[key, value], ...]
  map: [] (no own prefix table) or [[[prefix, uri], ...]]
"""
import copy
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

CH = dict(corpus='igt', igt='tier', tier='item', metadata='meta', meta='child', child='child')
HAS_MD = ('corpus', 'igt', 'tier')


def node(k, id=None, type=None, ns=None, name='', attrs=None, text=None, md=(), ch=(), map=None):
    o = lambda x: [] if x is None else [x]
    return dict(k=k, id=o(id), type=o(type), ns=o(ns), name=name,
                attrs=sorted([a, b] for a, b in (attrs or {}).items()), text=o(text),
                md=list(md), ch=list(ch), map=[] if map is None else [sorted([a, b] for a, b in map.items())])


def un(o):
    return o[0] if o else None


def build(n, rng=None):
    """The real object of a node; with rng, dict orders are shuffled. What it
    was made of is not its own."""
    attrs = [tuple(x) for x in n['attrs']]
    if rng is not None:
        rng.shuffle(attrs)
    kw = dict(attributes=dict(attrs), namespace=un(n['ns']),
              nsmap=None if not n['map'] else dict(map(tuple, n['map'][0])))
    k = n['k']
    ch = [build(c, rng) for c in n['ch']]
    if k != 'child':
        kw.update(id=un(n['id']), type=un(n['type']))
    if k in HAS_MD:
        kw['metadata'] = [build(m, rng) for m in n['md']]
    if k == 'corpus': r = XigtCorpus(igts=ch, **kw)
    elif k == 'igt': r = Igt(tiers=ch, **kw)
    elif k == 'tier': r = Tier(items=ch, **kw)
    elif k == 'item': r = Item(text=un(n['text']), **kw)
    elif k == 'metadata':
        m = n['ch'][0] if len(n['ch']) == 1 else None
        if m and m['text'] and not (m['id'] or m['type'] or m['attrs'] or m['ns'] or m['map'] or m['ch']):
            r = Metadata(text=ch[0].text, **kw)      # the older way to say the same
        else: r = Metadata(metas=ch, **kw)
    elif k == 'meta': r = Meta(text=un(n['text']), children=ch, **kw)
    elif k == 'child':
        r = MetaChild(n['name'], text=un(n['text']), children=ch, **kw)
        if n['id']: r.id = n['id'][0]
        if n['type']: r.type = n['type'][0]
    else: raise ValueError(k)
    for x in (ch, kw['attributes'], kw['nsmap'], kw.get('metadata')):
        if x: x.clear()
    return r


def remade(n, rng, warm=lambda o: None):
    """The real object of a node that was one of another first."""
    m = copy.deepcopy(n)
    for k, x in enumerate(walk(m)):
        if x['k'] == 'other' or rng.random() < .5: continue
        f = rng.choice(['id', 'id', 'type', 'ns', 'text', 'attrs'])
        if f == 'attrs': x['attrs'] = sorted([[a, v + 'z'] for a, v in x['attrs'][1:]] + [['zq', '']])
        elif f == 'text' and x['k'] not in ('item', 'meta', 'child'): pass
        elif f == 'id' and x['k'] == 'child': pass
        else: x[f] = rng.choice([[], ['zz%d' % k]])
    r = build(m, rng)
    warm(r)
    for (x, o), (y, _) in zip(list(pairs(n, r)), list(pairs(m, r))):
        if x['id'] != y['id']: o.id = un(x['id'])
        if x['type'] != y['type']: o.type = un(x['type'])
        if x['ns'] != y['ns']: o.namespace = un(x['ns'])
        if x['text'] != y['text']: o.text = un(x['text'])
        if x['attrs'] != y['attrs']:
            if rng.random() < .5: o.attributes = dict(map(tuple, x['attrs']))
            else:
                for a, v in y['attrs']: del o.attributes[a]
                o.attributes.update(map(tuple, x['attrs']))
    return r


KIND = [(XigtCorpus, 'corpus'), (Igt, 'igt'), (Tier, 'tier'), (Item, 'item'),
        (Metadata, 'metadata'), (Meta, 'meta'), (MetaChild, 'child')]


def enc(o, f=lambda s: s, withmap=True):
    """The node of a real object (through its public members)."""
    k = next((k for c, k in KIND if isinstance(o, c)), 'other')
    if k == 'other':
        return node('other', name=f(repr(o)))
    op = lambda x: [] if x is None else [f(x) if isinstance(x, str) else f('!%r' % (x,))]
    return dict(k=k, id=op(o.id), type=op(o.type), ns=op(o.namespace),
                name=f(o.name) if k == 'child' else '',
                attrs=sorted([f(a) if isinstance(a, str) else f('!%r' % (a,)),
                              f(b) if isinstance(b, str) else f('!%r' % (b,))] for a, b in o.attributes.items()),
                text=op(o.text) if k in ('item', 'meta', 'child') else [],
                md=[enc(m, f, withmap) for m in o.metadata] if k in HAS_MD else [],
                ch=[enc(c, f, withmap) for c in o] if k != 'item' else [],
                map=([sorted([f(a or ''), f(b)] for a, b in o.nsmap.items())] if withmap else []))


def pairs(n, o):
    """The nodes of a document with their real objects."""
    yield n, o
    for c, x in list(zip(n['md'], o.metadata if n['md'] else [])) + list(zip(n['ch'], list(o) if n['ch'] else [])):
        for p in pairs(c, x): yield p


def noids(n):
    n = copy.deepcopy(n)
    for x in walk(n): x['id'] = []
    return n


REFATTRS = ('alignment', 'content', 'segmentation', 'ref')


def edit(n, o, rng, texts, mtexts=None, count=None, graft=False):
    """Edits a document: both the node and its real object."""
    for _ in range(rng.choice([1, 1, 2, 3, 6]) if count is None else count):
        x, r = rng.choice(list(pairs(n, o)))
        how = rng.choice(['attr', 'attr', 'attr', 'drop', 'text', 'text', 'type', 'remove', 'move', 'copy'] + ['graft'] * (3 * graft))
        if how == 'attr':
            ks = [k for k, _ in x['attrs'] if k not in REFATTRS] + ['v', 'new']
            k, v = rng.choice(ks), rng.choice(texts)
            old = next((a for a in x['attrs'] if a[0] == k), None)
            if old: old[1] = v
            else: x['attrs'].append([k, v])
            if rng.random() < .5: r.attributes[k] = v
            else: r.attributes = dict(r.attributes, **{k: v})
        elif how == 'drop' and x['attrs']:
            k = rng.choice(x['attrs'])[0]
            x['attrs'] = [a for a in x['attrs'] if a[0] != k]
            del r.attributes[k]
        elif how == 'text' and x['k'] in ('item', 'meta', 'child'):
            t = rng.choice([None] + list(texts if x['k'] == 'item' or mtexts is None else mtexts))
            x['text'] = [] if t is None else [t]
            r.text = t
        elif how == 'type' and x['k'] != 'child':
            t = rng.choice([None, 'words', 'glosses', 'z'])
            x['type'] = [] if t is None else [t]
            r.type = t
        elif how == 'graft':    # to another parent
            if x['k'] == 'item' or not x['ch']: continue
            i = rng.randrange(len(x['ch']))
            m = x['ch'][i]
            ts = [(x2, r2) for x2, r2 in pairs(n, o) if x2['k'] == x['k'] and x2 is not x and not any(y is x2 for y in walk(m))
                  and (m['k'] == 'child' or not m['id'] or m['id'] not in [y['id'] for y in x2['ch']])]
            if not ts: continue
            x2, r2 = rng.choice(ts)
            x['ch'].pop(i)
            y = list(r)[i]
            if m['k'] == 'child' or rng.random() < .5: r.pop(i)
            else: r.remove(y)
            j = rng.randint(0, len(x2['ch']))
            x2['ch'].insert(j, m); r2.insert(j, y)
        elif how in ('remove', 'move', 'copy'):
            k = 'md' if x['k'] in HAS_MD and rng.random() < .4 else 'ch'
            c = r.metadata if k == 'md' else r
            if x['k'] == 'item' or not x[k]: continue
            i = rng.randrange(len(x[k]))
            j = rng.randint(0, len(x[k]) - (how != 'copy'))
            if how == 'copy':
                m = noids(x[k][i])
                x[k].insert(j, m); c.insert(j, build(m))
            else:
                m = x[k].pop(i)
                if m['k'] == 'child' or rng.random() < .5: y = c.pop(i)
                else:
                    y = list(c)[i]
                    c.remove(y)
                if how == 'move': x[k].insert(j, m); c.insert(j, y)
    for x, r in list(pairs(n, o)):
        x['attrs'].sort()
        if x['k'] == 'igt': r.refresh_indices(tiers=True, items=True)


def asc(s):
    return s.encode('unicode_escape').decode('ascii')


def esc(n):
    """A node with every string as ASCII."""
    r = dict(n)
    for k in ('id', 'type', 'ns', 'text'):
        r[k] = [asc(x) for x in n[k]]
    r['name'] = asc(n['name'])
    r['attrs'] = sorted([asc(a), asc(b)] for a, b in n['attrs'])
    r['md'] = [esc(m) for m in n['md']]
    r['ch'] = [esc(m) for m in n['ch']]
    r['map'] = [sorted([asc(a), asc(b)] for a, b in m) for m in n['map']]
    return r


def walk(n):
    yield n
    for m in n['md']:
        for x in walk(m): yield x
    for m in n['ch']:
        for x in walk(m): yield x


def size(n):
    return sum(1 for _ in walk(n))


# ------------------------------------------------------------- generation

TEXTS = ['a', 'b', 'dog', 'inu=ga', ' x ', 'two words', 'é', '日本語', '\U0001d11e', '<&>"\'', ']]>', 'a\tb', 'x\ny',
         'ﬁ', 'e\u0301', '\u00a0', '\\n', '%s{}', '-', '0', '1.5', 'None', 'z' * 300]
KEYS = ['v', 'doc-id', 'lang', 'state', 'x.y', 'É', 'k_1', 'tag']
URIS = {'dc': 'http://purl.org/dc/elements/1.1/', 'olac': 'http://www.language-archives.org/OLAC/1.1/',
        'p': 'urn:p', 'q': 'urn:q', 'r': 'http://example.com/r#'}


class Gen(object):
    """Random documents. Options: xml (only XML-representable strings),
    nsattrs, maps, mtypes."""
    def __init__(self, rng, xml=False, texts=None, ns=True, maps=True, rich=1.0, wsmeta=False, emptyok=True):
        self.r = rng
        self.xml, self.ns, self.maps, self.rich = xml, ns, maps, rich
        self.texts = texts or TEXTS
        self.emptyok = emptyok and not xml
        self.wsmeta = wsmeta

    def text(self, p=.8):
        if self.r.random() > p: return None
        if self.emptyok and self.r.random() < .1: return ''
        if self.r.random() < .15: return ''.join(self.r.choice(self.texts) for _ in range(self.r.randint(2, 5)))
        return self.r.choice(self.texts)

    def mtext(self, p=.6):
        t = self.text(p)
        if self.xml and t is not None and not t.strip():
            return 'w' + t
        return t

    def attrs(self, scope, p=.5):
        a = {}
        while self.r.random() < p and len(a) < 5:
            k = self.r.choice(KEYS)
            if self.ns and scope and self.r.random() < .4:
                k = '{%s}%s' % (self.r.choice(sorted(scope.values())), k)
            elif self.ns and self.r.random() < .08:
                k = '{http://www.w3.org/XML/1998/namespace}lang'
            a[k] = self.r.choice(self.texts + ['', 'x:y'])
        return a

    def type(self, p=.5):
        return self.r.choice(['words', 'glosses', 'xigt-meta', 't-1', 'É', 'a b']) if self.r.random() < p else None

    def map(self, scope, p=.25):
        """(own table or None, scope inside)"""
        if not self.maps or self.r.random() > p: return None, scope
        m = dict(scope)
        for _ in range(self.r.randint(0, 2)):
            pre = self.r.choice(sorted(URIS))
            m[pre] = URIS[pre]
        if self.r.random() < .25 and m:
            m[self.r.choice(sorted(m))] = 'urn:other%d' % self.r.randint(1, 3)
        return m, m

    def ids(self, prefix, n, p=.85):
        out, used = [], set()
        for i in range(n):
            c = '%s%d' % (prefix, i + 1)
            if self.r.random() < .2: c = self.r.choice(['%s-%d', '%s.%d', '%s_%dé']) % (prefix, i + 1)
            out.append(c if self.r.random() < p else None)
        return out

    def child(self, scope, depth):
        m, s = self.map(scope, .15)
        ns = self.r.choice(sorted(s.values())) if self.ns and s and self.r.random() < .5 else None
        n = self.r.choice([0, 0, 1, 2]) if depth > 0 else 0
        return node('child', name=self.r.choice(['subject', 'language', 'n', 'É-x', '_a.b', 'item', 'meta', 'tier']), ns=ns,
                    attrs=self.attrs(s, .4), text=self.mtext(.6 if n == 0 else .3), map=m,
                    ch=[self.child(s, depth - 1) for _ in range(n)])

    def meta(self, scope, id=None):
        m, s = self.map(scope, .15)
        n = self.r.choice([0, 0, 1, 2, 3])
        return node('meta', id=id, type=self.type(), attrs=self.attrs(s, .4), text=self.mtext(.8 if n == 0 else .3),
                    map=m, ch=[self.child(s, self.r.choice([0, 1, 1, 3])) for _ in range(n)])

    def metadata(self, scope, id=None):
        m, s = self.map(scope, .15)
        n = self.r.choice([0, 1, 2, 3])
        ids = self.ids('meta', n, .5)
        return node('metadata', id=id, type=self.type(), attrs=self.attrs(s, .3), map=m,
                    ch=[self.meta(s, i) for i in ids])

    def mds(self, scope, p=.4):
        n = self.r.choice([1, 1, 2]) if self.r.random() < p else 0
        return [self.metadata(scope, i) for i in self.ids('md', n, .5)]

    def item(self, scope, id=None):
        m, s = self.map(scope, .08)
        return node('item', id=id, type=self.type(.2), attrs=self.attrs(s, .35), text=self.text(.85), map=m)

    def tier(self, scope, id=None, nmax=4):
        m, s = self.map(scope, .15)
        n = self.r.randint(0, nmax)
        return node('tier', id=id, type=self.type(.7), attrs=self.attrs(s, .35), md=self.mds(s, .25), map=m,
                    ch=[self.item(s, i) for i in self.ids((id or 'x')[0] + 'i', n)])

    def igt(self, scope, id=None, nmax=3):
        m, s = self.map(scope, .25)
        n = self.r.randint(0, nmax)
        return node('igt', id=id, type=self.type(.2), attrs=self.attrs(s, .4), md=self.mds(s, .5), map=m,
                    ch=[self.tier(s, i) for i in self.ids('t', n)])

    def corpus(self, nigt=None):
        m, s = self.map({}, .7)
        n = self.r.randint(0, 4) if nigt is None else nigt
        return node('corpus', id=self.r.choice([None, 'c1', 'corpus.x']), type=self.type(.2), attrs=self.attrs(s, .5),
                    md=self.mds(s, .5), map=m, ch=[self.igt(s, i) for i in self.ids('i', n)])

    def any(self, k):
        f = dict(corpus=self.corpus, igt=lambda: self.igt({}, 'i1'), tier=lambda: self.tier({}, 't1'),
                 item=lambda: self.item({}, 'a1'), metadata=lambda: self.metadata({}), meta=lambda: self.meta({}),
                 child=lambda: self.child({}, 2))
        return f[k]()


def shrinkable(n):
    return copy.deepcopy(n)
