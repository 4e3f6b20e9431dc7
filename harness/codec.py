"""X01, X02, X03, X05: XigtXML and XigtJSON."""
import copy, io, json, os, random, re, tempfile
from xml.parsers import expat
from lib.core import MachineryError, asc, call, consts, pmap, run_tlc, validate_cases
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta
from xigt.codecs import xigtxml, xigtjson
from harness.docs import Gen, build, edit, enc, node, pairs, walk, esc, TEXTS, URIS

XMLNS = 'http://www.w3.org/XML/1998/namespace'

# --------------------------------------------------------- elements (raw XML)
# dict(pre, loc, decl: [[prefix, uri]], at: [dict(pre, loc, v)], text: [] | [t], ch)


def opt_blank(e):
    """The element as the specification gets it."""
    t = e['text']
    return dict(pre=asc(e['pre']), loc=asc(e['loc']), decl=[[asc(p), asc(u)] for p, u in e['decl']],
                at=[dict(pre=asc(a['pre']), loc=asc(a['loc']), v=asc(a['v'])) for a in e['at']],
                text=[asc(t[0])] if t else [], blank=not t or not t[0].strip(),
                ch=[opt_blank(c) for c in e['ch']])


def split(q):
    return q.split(':', 1) if ':' in q else ['', q]


def parse(data, kind='corpus'):
    """(element, junk) of an XML text by an independent reader."""
    root, stack, junk = [], [], []
    p = expat.ParserCreate()
    p.buffer_text = True
    def start(tag, attrs):
        e = dict(decl=[], at=[], text=[], ch=[])
        e['pre'], e['loc'] = split(tag)
        for k, v in zip(attrs[::2], attrs[1::2]):
            pre, loc = split(k)
            if pre == 'xmlns': e['decl'].append([loc, v])
            elif k == 'xmlns': e['decl'].append(['', v])
            else: e['at'].append(dict(pre=pre, loc=loc, v=v))
        (stack[-1]['ch'] if stack else root).append(e)
        stack.append(e)
    def end(tag): stack.pop()
    def text(t):
        e = stack[-1]
        if not e['ch']: e['text'] = [(e['text'][0] if e['text'] else '') + t]
        elif t.strip(): junk.append(t)
    p.ordered_attributes = True
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
    p.Parse(data.encode('utf-8') if isinstance(data, str) else data, True)
    def structural(e, k):
        if k in STRUCT:
            if e['text'] and e['text'][0].strip(): junk.append(e['text'][0])
            for c in e['ch']: structural(c, 'metadata' if c['loc'] == 'metadata' and k != 'metadata' else STRUCT[k])
    structural(root[0], kind)
    return root[0], bool(junk)


STRUCT = dict(corpus='igt', igt='tier', tier='item', metadata='meta')


def ewalk(e):
    yield e
    for c in e['ch']:
        for x in ewalk(c): yield x


def toelem(n, rng, scope=None):
    """An element tree for a nested document, with the freedom XML leaves."""
    scope = dict(scope or {})
    decl = []
    if n['map']:
        own = dict(map(tuple, n['map'][0]))
        decl = [[p, u] for p, u in own.items() if scope.get(p) != u or rng.random() < .1]
        rng.shuffle(decl)
        scope.update(own)
    def pre(uri, tag=False):
        if uri == XMLNS: return 'xml'
        return rng.choice(sorted(p for p, u in scope.items() if u == uri and (p or tag)))
    at = []
    if n['id']: at.append(dict(pre='', loc='id', v=n['id'][0]))
    if n['type']: at.append(dict(pre='', loc='type', v=n['type'][0]))
    for k, v in n['attrs']:
        if k.startswith('{'):
            u, l = k[1:].split('}', 1)
            at.append(dict(pre=pre(u), loc=l, v=v))
        else: at.append(dict(pre='', loc=k, v=v))
    rng.shuffle(at)
    ch = [toelem(c, rng, scope) for c in n['md'] + n['ch']]
    text = list(n['text'])
    if n['k'] in ('meta', 'child') and not text and rng.random() < .3: text = [rng.choice([' ', '\n\t', '   \n'])]
    return dict(pre=pre(n['ns'][0], True) if n['ns'] else '', loc=n['name'] if n['k'] == 'child' else {'corpus': 'xigt-corpus'}.get(n['k'], n['k']),
                decl=decl, at=at, text=text, ch=ch)


def emit(e, rng, enc='utf-8'):
    """XML text of an element tree with random lexical choices."""
    def can(c):
        try: c.encode(enc if enc != 'str' else 'utf-8'); return True
        except UnicodeEncodeError: return False
    def chars(t, quote=None):
        o = []
        for c in t:
            r = rng.random()
            if c == '&': o.append(rng.choice(['&amp;', '&#38;', '&#x26;']))
            elif c == '<': o.append(rng.choice(['&lt;', '&#60;']))
            elif c == '>': o.append('&gt;')
            elif c in '\r' or (quote and c in '\n\t'): o.append('&#%d;' % ord(c))
            elif c == quote: o.append('&quot;' if c == '"' else '&apos;')
            elif not can(c) or r < .03: o.append(rng.choice(['&#%d;', '&#x%x;']) % ord(c))
            else: o.append(c)
        return ''.join(o)
    def cdata(t):
        return t and ']]>' not in t and '\r' not in t and all(map(can, t)) and rng.random() < .12
    extra = lambda: rng.choice(['<!-- c -->', '<?pi x?>', '<!--<igt id="x"/>-->']) if rng.random() < .04 else ''
    pretty = rng.random() < .6
    def tag(e, lvl):
        name = lambda p, l: p + ':' + l if p else l
        at = [('xmlns:' + p if p else 'xmlns', u) for p, u in e['decl']] + [(name(a['pre'], a['loc']), a['v']) for a in e['at']]
        rng.shuffle(at)
        s = '<' + name(e['pre'], e['loc'])
        for k, v in at:
            q = rng.choice('"\'')
            s += rng.choice([' ', ' ', '\n  ']) + k + rng.choice(['=', '=', ' = ']) + q + chars(v, q) + q
        if rng.random() < .05: s += ' '
        if not e['text'] and not e['ch'] and rng.random() < .7: return s + '/>'
        s += '>'
        t = e['text'][0] if e['text'] else ''
        if cdata(t): s += '<![CDATA[' + t + ']]>'
        elif t and rng.random() < .1:
            k = rng.randint(0, len(t)); s += chars(t[:k]) + rng.choice(['<!-- in -->', '<?x?>']) + chars(t[k:])
        else: s += chars(t)
        struct = e['loc'] in ('xigt-corpus', 'igt', 'tier', 'metadata') and not e['pre']
        for c in e['ch']:
            if pretty and (struct or not t.strip()) : s += ('\n' + '  ' * lvl if struct or c is not e['ch'][0] or not t else '')
            s += extra() + tag(c, lvl + 1)
        if pretty and e['ch']: s += '\n' + '  ' * (lvl - 1)
        return s + '</' + name(e['pre'], e['loc']) + '>'
    body = tag(e, 1)
    head = ''
    if enc not in ('utf-8', 'str') or rng.random() < .5:
        head = '<?xml version="1.0"' + (' encoding="%s"' % enc if enc not in ('str',) else '') + '?>\n'
    return head + extra() + body + rng.choice(['', '\n'])




# --------------------------------------------------------------------- JSON

def tojson(o, k='corpus', nulls=False):
    """The specification's view of a parsed JSON object."""
    bad = False
    def opt(x):
        nonlocal bad
        if x not in o or nulls and o[x] is None: return []
        if not isinstance(o[x], str): bad = True; return []
        return [asc(o[x])]
    kid = dict(corpus='igts', igt='tiers', tier='items', metadata='metas', meta='children', child='children').get(k)
    below = dict(corpus='igt', igt='tier', tier='item', metadata='meta', meta='child', child='child').get(k)
    allowed = {'id', 'type', 'attributes', 'namespace', 'namespaces', kid}
    if k in ('corpus', 'igt', 'tier'): allowed.add('metadata')
    if k in ('item', 'meta', 'child'): allowed.add('text')
    if k == 'child': allowed.add('name')
    if set(o) - allowed: bad = True
    at = []
    for a, v in (o.get('attributes') or {}).items():
        pre, loc = split(a) if not a.startswith('{') else ['', a]
        if a.startswith(':'): pre = ':'
        if not isinstance(v, str): bad = True; v = repr(v)
        at.append(dict(pre=asc(pre), loc=asc(loc), v=asc(v)))
    pre, name = split(o.get('name', ''))
    if o.get('name', '').startswith(':'): pre = ':'
    decl = [[asc(p), asc(u)] for p, u in (o.get('namespaces') or {}).items()]
    r = dict(id=opt('id'), type=opt('type'), ns=opt('namespace'), text=opt('text'), decl=decl, at=at, pre=asc(pre), name=asc(name),
             md=[tojson(m, 'metadata', nulls) for m in o.get('metadata', [])],
             ch=[tojson(c, below, nulls) for c in o.get(kid, [])] if kid else [])
    r['bad'] = bad
    return r


# ---------------------------------------------------------------- documents

XTEXTS = TEXTS + ['\x85', '\u2028x', '&amp;', '<![CDATA[x]]>', '<!-- -->', 'a&#10;b', 'x\n', '\n', '\t', '"', "'", '\ufffd', 'क्ष', '<b>x</b>']


class XGen(Gen):
    def attrs(self, scope, p=.5):
        # names that mean something without a namespace, or in another place
        a = Gen.attrs(self, scope, p)
        if a and self.r.random() < .15:
            k = self.r.choice(['id', 'type', 'name', 'text', 'xmlns'])
            uri = self.r.choice(sorted(scope.values()) + [XMLNS])
            if uri == XMLNS and k == 'xmlns': k = 'space'
            a['{%s}%s' % (uri, k)] = self.r.choice(['a', 'default', 'x y'])
        if a and self.r.random() < .1: a[self.r.choice(['name', 'text', 'namespace', 'items', 'value', 'metadata'])] = self.r.choice(self.texts)
        return a

    def child(self, scope, depth):
        c = Gen.child(self, scope, depth)
        if self.r.random() < .15: c['id'] = [self.r.choice(['k1', 'k2', 'x-y']) + str(self.r.randint(0, 999))]
        if self.r.random() < .15: c['type'] = [self.r.choice(['t', 'é'])]
        if self.r.random() < .1: c['name'] = self.r.choice(['igt', 'metadata', 'xigt-corpus', 'text'])
        return c


def uniq(d):
    """Ids of nested metadata unique among siblings."""
    for n in walk(d):
        seen = set()
        for c in n['ch']:
            if c['id']:
                if c['id'][0] in seen: c['id'] = []
                else: seen.add(c['id'][0])
    return d


def rdoc(rng, xml, big=False):
    g = XGen(rng, xml=xml, texts=XTEXTS, rich=1)
    d = g.corpus(rng.choice([60, 120]) if big else rng.choice([0, 1, 1, 2, 2, 3, 4]))
    for n in walk(d):
        if rng.random() < .03: n['type'] = ['']
    if rng.random() < .5: defaults(d, rng)
    return uniq(d)


def defaults(d, rng):
    """Default namespaces for some of the nested metadata elements."""
    def go(n, scope, default):
        own = dict(map(tuple, n['map'][0])) if n['map'] else None
        if own is not None and default is not None: own.setdefault('', default)
        if n['k'] == 'child' and rng.random() < .3:
            own = dict(scope if own is None else own)
            own[''] = default = rng.choice(sorted(u for u in own.values() if u) + ['urn:default'])
        if default and not n['ns']:
            if rng.random() < .6: n['ns'] = [default]
            else:
                own = dict(scope if own is None else own)
                own[''] = default = ''
        if own is not None: n['map'] = [sorted([a, b] for a, b in own.items())]
        for c in n['md'] + n['ch']: go(c, scope if own is None else own, default)
    go(d, {}, None)


def encoded(d, rng):
    """The bytes of a file with the document, in any encoding it declares."""
    e = toelem(d, rng)
    enc_ = rng.choice(['utf-8'] * 4 + ['utf-16', 'iso-8859-1', 'us-ascii'])
    names = ''.join(x['pre'] + x['loc'] + ''.join(a['pre'] + a['loc'] for a in x['at']) for x in ewalk(e))
    try: names.encode(enc_)
    except UnicodeEncodeError: enc_ = 'utf-8'
    return emit(e, rng, enc_).encode(enc_)


SCRATCH = None


def tmp(suffix, data=None):
    fd, p = tempfile.mkstemp(suffix=suffix, dir=SCRATCH)
    os.close(fd)
    if data is not None:
        with open(p, 'wb') as f: f.write(data)
    return p


def fail(t, err, **k):
    b = node('corpus', map={})
    e = dict(pre='', loc='', decl=[], at=[], text=[], blank=True, ch=[])
    j = dict(bad=False, id=[], type=[], ns=[], decl=[], at=[], pre='', name='', text=[], md=[], ch=[])
    return dict(dict(t=t, err=err, got=b, e=e, e2=e, re=b, d=b, j=j, xj=[], after=True, junk=False, equal=True), **k)


def before_and_after(load, rng):
    """What is loaded, perhaps not for the first time; its node, after an edit
    of one of its parts that has been taken out of the node again."""
    if rng.random() < .25:
        t, v = call(load, limit=20)
        if t == 'ok': call(lambda: edit(enc(v), v, rng, TEXTS))
    t, v = call(load, limit=20)
    if t != 'ok': return t, v
    if rng.random() < .5: return call(lambda: enc(v, asc))
    def go():
        n = enc(v, asc)
        k = rng.randrange(len(list(walk(n))))
        _, o = list(pairs(n, v))[k]
        old = next((a for a in o.attributes if rng.random() < .5), None)
        was = o.attributes.get(old)
        o.attributes['zz-edit'] = 'edited'
        if old is not None: o.attributes[old] = 'edited'
        n = enc(v, asc)
        x, _ = list(pairs(n, v))[k]
        x['attrs'] = sorted([a, asc(was) if old is not None and a == asc(old) else b] for a, b in x['attrs'] if a != 'zz-edit')
        return n
    return call(go)


def x01(d, rng, elem=None):
    e = elem or toelem(d, rng)
    how = rng.choice(['loads', 'bytes', 'path', 'fh', 'stringio', 'bytesio'])
    enc_ = 'str' if how in ('loads', 'stringio') else rng.choice(['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'us-ascii', 'utf-8-sig'])
    names = ''.join(x['pre'] + x['loc'] + ''.join(a['pre'] + a['loc'] for a in x['at']) for x in ewalk(e))
    try: names.encode(enc_ if enc_ != 'str' else 'utf-8')
    except UnicodeEncodeError: enc_ = 'utf-8'
    text = emit(e, rng, {'utf-8-sig': 'utf-8'}.get(enc_, enc_))
    data = text if enc_ == 'str' else text.encode(enc_)
    p = None
    def go():
        nonlocal p
        if how in ('loads', 'bytes'): return xigtxml.loads(data)
        if how == 'stringio': return xigtxml.load(io.StringIO(data))
        if how == 'bytesio': return xigtxml.load(io.BytesIO(data))
        p = tmp('.xml', data)
        if how == 'path': return xigtxml.load(p)
        with open(p, 'rb') as f: return xigtxml.load(f)
    def once():
        nonlocal p
        p = None
        try: return go()
        finally:
            if p: os.unlink(p)
    t, v = before_and_after(once, rng)
    # the reader's view of what was written
    seen, junk = parse(text if enc_ == 'str' else text.encode('utf-8') if enc_ == 'utf-8-sig' else data) if 'encoding="utf-16"' not in text else parse(re.sub(r' encoding="utf-16"', '', text))
    if t != 'ok': return fail('x01', '%s: %s' % (how, asc(repr(v)))), text
    c = fail('x01', '', e=opt_blank(seen))
    c['got'] = v
    return c, text


def written_and_edited(d, o, write, rng):
    """Sometimes it has been written before, and then edited."""
    if rng.random() < .3:
        call(write, o, limit=20)
        if rng.random() < .6: edit(d, o, rng, TEXTS, [t for t in TEXTS if t.strip()])
        if rng.random() < .6: renamed(d, o, rng)


def renamed(d, o, rng):
    """Other prefixes for the same namespaces, everywhere."""
    ps = sorted({p for n in walk(d) for m in n['map'] for p, _ in m if p})
    names = ps + ['n1', 'zz', 'a-b']
    if rng.random() < .5: names = names[:len(ps)]
    rng.shuffle(names)
    to = dict(zip(ps, names), **{'': ''})
    for n, x in list(pairs(d, o)):
        if not n['map']: continue
        n['map'] = [sorted([to[p], u] for p, u in n['map'][0])]
        new = dict(map(tuple, n['map'][0]))
        if rng.random() < .5: x.nsmap = new
        else:
            m = x.nsmap
            m.clear(); m.update(new)


def x02(d, rng):
    o = build(d, rng)
    indent = rng.choice([None, 0, 1, 2, 2, 4, 8])
    how = rng.choice(['dumps', 'dumps', 'bytes', 'file', 'fh', 'stringio', 'bytesio', 'text'])
    encoding = rng.choice(['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1', 'utf-16'])
    # names cannot be written in encodings that lack their letters
    try: ''.join(n['name'] + ''.join(a for a, _ in n['attrs']) for n in walk(d)).encode(encoding)
    except UnicodeEncodeError: encoding = 'utf-8'
    def write(x, indent=indent):
        if how == 'dumps': return xigtxml.dumps(x, indent=indent)
        if how == 'bytes': return xigtxml.dumps(x, encoding=encoding, indent=indent)
        if how == 'stringio':
            f = io.StringIO(); xigtxml.dump(f, x, encoding='unicode', indent=indent); return f.getvalue()
        if how == 'bytesio':
            f = io.BytesIO(); xigtxml.dump(f, x, encoding=encoding, indent=indent); return f.getvalue()
        p = tmp('.xml')
        try:
            if how == 'file': xigtxml.dump(p, x, encoding=encoding, indent=indent)
            elif how == 'fh':
                with open(p, 'wb') as f: xigtxml.dump(f, x, encoding=encoding, indent=indent)
            else:
                with open(p, 'w', encoding='utf-8') as f: xigtxml.dump(f, x, encoding=encoding, indent=indent)
            with open(p, 'rb') as f: return f.read()
        finally: os.unlink(p)
    written_and_edited(d, o, write, rng)
    before = enc(o)
    t, s = call(write, o, limit=20)
    if t != 'ok': return fail('x02', 'writing (%s): %s' % (how, asc(repr(s)))), ''
    after = enc(o) == before
    t, r = call(lambda: parse(s))
    if t != 'ok': return fail('x02', 'not XML: ' + asc(repr(r))), s
    e, junk = r
    t, o2 = call(lambda: xigtxml.load(io.BytesIO(s)) if isinstance(s, bytes) else xigtxml.loads(s), limit=20)
    if t != 'ok': return fail('x02', 'reloading: ' + asc(repr(o2))), s
    re_ = enc(o2, asc)
    t, eq = call(lambda: o2 == o and o == o2 and not o != o2)
    equal = t == 'ok' and eq is True
    t, s2 = call(lambda: parse(write(o2, rng.choice([indent, None, 2])))[0], limit=20)
    if t != 'ok': return fail('x02', 'writing again: ' + asc(repr(s2))), s
    return fail('x02', '', d=esc(d), after=after, e=opt_blank(e), junk=junk, re=re_, equal=equal, e2=opt_blank(s2)), s


def x03(d, rng, cross):
    o = build(d, rng)
    how = rng.choice(['dumps', 'dumps', 'path', 'fh', 'stringio'])
    indent = rng.choice([None, 0, 2, 2, 4])
    def write(x):
        if how == 'dumps': return xigtjson.dumps(x, indent=indent)
        if how == 'stringio':
            f = io.StringIO(); xigtjson.dump(f, x, indent=indent); return f.getvalue()
        p = tmp('.json')
        try:
            if how == 'path': xigtjson.dump(p, x, indent=indent)
            else:
                with open(p, 'w') as f: xigtjson.dump(f, x, indent=indent)
            with open(p) as f: return f.read()
        finally: os.unlink(p)
    def read(s):
        r = rng.random()
        if r < .5: return xigtjson.loads(s)
        if r < .7: return xigtjson.load(io.StringIO(s))
        p = tmp('.json', s.encode('utf-8'))
        try:
            if r < .85: return xigtjson.load(p)
            with open(p) as f: return xigtjson.load(f)
        finally: os.unlink(p)
    written_and_edited(d, o, write, rng)
    before = enc(o)
    t, s = call(write, o, limit=20)
    if t != 'ok': return fail('x03', 'writing (%s): %s' % (how, asc(repr(s)))), ''
    after = enc(o) == before
    t, j = call(lambda: tojson(json.loads(s)))
    if t != 'ok': return fail('x03', 'not the format: ' + asc(repr(j))), s
    t, o2 = call(read, s, limit=20)
    if t != 'ok': return fail('x03', 'reloading: ' + asc(repr(o2))), s
    t, eq = call(lambda: o2 == o and o == o2 and not o != o2)
    xj = []
    if cross:
        def xjx(): return xigtxml.loads(xigtxml.dumps(read(write(xigtxml.loads(xigtxml.dumps(o))))))
        def jxj(): return read(write(xigtxml.loads(xigtxml.dumps(read(write(o))))))
        for f in (xjx, jxj):
            t, v = call(f, limit=20)
            if t != 'ok': return fail('x03', 'crossing: ' + asc(repr(v))), s
            t, q = call(lambda: v == o and o == v)
            xj.append(dict(n=enc(v, asc), equal=t == 'ok' and q is True))
    return fail('x03', '', d=enc(o, asc), after=after, j=j, re=enc(o2, asc), equal=eq is True, xj=xj), s


def tojobj(n, rng, scope=None):
    """A JSON object for a nested document, with the freedom the format leaves."""
    scope = dict(scope or {})
    k, m = n['k'], {}
    if n['map']:
        own = dict(map(tuple, n['map'][0]))
        decl = {p: u for p, u in own.items() if scope.get(p) != u or rng.random() < .2}
        if decl or rng.random() < .3: m['namespaces'] = decl
        scope.update(decl)
    for f in ('id', 'type', 'text'):
        if n[f]: m[f] = n[f][0]
        elif rng.random() < .05 and (f != 'text' or k in ('item', 'meta', 'child')): m[f] = None
    pre = lambda uri: sorted(p for p, u in scope.items() if u == uri)
    at = []
    for a, v in n['attrs']:
        if a.startswith('{'):
            u, l = a[1:].split('}', 1)
            ps = [p for p in pre(u) if p]
            if ps and rng.random() < .8: a = rng.choice(ps) + ':' + l
        elif rng.random() < .05: a = rng.choice(['none', 'zz']) + ':' + a
        at.append((a, v))
    rng.shuffle(at)
    if at or rng.random() < .2: m['attributes'] = dict(at)
    if k == 'child':
        m['name'] = n['name']
        if n['ns']:
            ps = pre(n['ns'][0])
            r = rng.random()
            if ps and r < .5: m['name'] = rng.choice(ps) + ':' + n['name']
            elif ps and r < .7: m['namespace'] = rng.choice(ps)
            else: m['namespace'] = n['ns'][0]
        elif rng.random() < .05: m['name'] = 'none:' + n['name']
        elif rng.random() < .05: m['namespace'] = rng.choice([None, 'urn:unmapped'])
    kid = dict(corpus='igts', igt='tiers', tier='items', metadata='metas', meta='children', child='children').get(k)
    if n['md'] or k in ('corpus', 'igt', 'tier') and rng.random() < .2: m['metadata'] = [tojobj(c, rng, scope) for c in n['md']]
    if kid and (n['ch'] or rng.random() < .5): m[kid] = [tojobj(c, rng, scope) for c in n['ch']]
    m = list(m.items())
    rng.shuffle(m)
    return dict(m)


def x06(d, rng):
    o = tojobj(d, rng)
    a, ind = rng.random() < .5, rng.choice([None, None, 0, 1, 4, '\t'])
    text = json.dumps(o, ensure_ascii=a, indent=ind, separators=rng.choice([None, (',', ':'), (' , ', ' : ')]))
    how = rng.choice(['loads', 'bytes', 'path', 'fh', 'stringio', 'bytesio'])
    enc_ = rng.choice(['utf-8', 'utf-8', 'utf-16', 'utf-8-sig']) if how in ('bytes', 'bytesio') else 'utf-8'
    p = None
    def go():
        nonlocal p
        if how == 'loads': return xigtjson.loads(text)
        if how == 'bytes': return xigtjson.loads(text.encode(enc_))
        if how == 'stringio': return xigtjson.load(io.StringIO(text))
        if how == 'bytesio': return xigtjson.load(io.BytesIO(text.encode(enc_)))
        p = tmp('.json', text.encode(enc_))
        if how == 'path': return xigtjson.load(p)
        with open(p, encoding=enc_) as f: return xigtjson.load(f)
    def once():
        nonlocal p
        p = None
        try: return go()
        finally:
            if p: os.unlink(p)
    t, v = before_and_after(once, rng)
    if t != 'ok': return fail('x06', '%s: %s' % (how, asc(repr(v)))), text
    return fail('x06', '', j=tojson(json.loads(text), nulls=True), got=v), text


def parts(o, owner=None):
    """The parts of a corpus with their owners."""
    yield o, owner
    for m in getattr(o, 'metadata', None) or []:
        for x in parts(m, o): yield x
    if not isinstance(o, Item):
        for c in o:
            for x in parts(c, o): yield x


def scoped(n, scope):
    """The nodes of a document, with the tables in scope as their own."""
    own = dict(scope, **dict(map(tuple, n['map'][0]))) if n['map'] else scope
    yield dict(n, map=[sorted([a, b] for a, b in own.items())] if own else [])
    for c in n['md'] + n['ch']:
        for x in scoped(c, own): yield x


def x05(d, rng):
    """A part of a corpus (or of a part that stands alone) encoded on its own."""
    if rng.random() < .4:
        ns = [n for n in scoped(d, {}) if n['ch'] or n['md']]
        if ns: d = rng.choice([n for n in ns if n['k'] == rng.choice(sorted({n['k'] for n in ns}))] or ns)
    o = build(d, rng)
    def write(o):
        for y, w in parts(o):
            k = enc(y)['k'].replace('child', 'metachild')
            if k == 'corpus': continue
            call(getattr(xigtxml, 'encode_' + k), y, limit=20)
            call(lambda: getattr(xigtjson, 'encode_' + k)(y, *(() if w is None or rng.random() < .5 else (dict(w.nsmap),))), limit=20)
    written_and_edited(d, o, write, rng)
    before = enc(o)
    ps = list(parts(o))
    kinds = sorted({enc(x)['k'] for x, _ in ps} - {'corpus'})
    if not kinds: return None, ''
    k = rng.choice(kinds)
    x, owner = rng.choice([x for x in ps if enc(x[0])['k'] == k])
    name = 'metachild' if k == 'child' else k
    d = enc(x, asc)
    encoding = rng.choice(['unicode', 'unicode', 'utf-8', 'us-ascii', 'utf-16'])
    try: ''.join(n['name'] + ''.join(a for a, _ in n['attrs']) for n in walk(enc(x))).encode('utf-8' if encoding == 'unicode' else encoding)
    except UnicodeEncodeError: encoding = 'utf-8'
    r = rng.random()
    kw = {} if r < .3 else dict(encoding=encoding, indent=rng.choice([None, 0, 1, 2, 4]))
    b = dict(k=k, ctx=[], rj=node('corpus', map={}), jequal=True)
    t, s = call(lambda: getattr(xigtxml, 'encode_' + name)(x, **kw), limit=20)
    if t != 'ok': return fail('x05', 'writing: ' + asc(repr(s)), **b), ''
    t, r = call(lambda: parse(s, k))
    if t != 'ok': return fail('x05', 'not XML: ' + asc(repr(r)), **b), s
    e, junk = r
    def read():
        ev = list(xigtxml.ns_iterparse(io.BytesIO(s) if isinstance(s, bytes) else io.StringIO(s)))
        return getattr(xigtxml, 'decode_' + name)(ev[0][1])
    t, o2 = call(read, limit=20)
    if t != 'ok': return fail('x05', 'reloading: ' + asc(repr(o2)), **b), s
    t, eq = call(lambda: o2 == x and x == o2 and not o2 != x)
    ctx = rng.choice([None, {}, 'owner', 'owner', {'p': 'urn:p', 'dc': 'urn:x'}, {'z': 'urn:other1'}, {'q': 'urn:p', 'p': 'urn:q'}])
    if ctx == 'owner': ctx = dict(owner.nsmap) if owner is not None else None
    g = lambda: (() if ctx is None and rng.random() < .5 else (ctx,))
    t, j0 = call(lambda: getattr(xigtjson, 'encode_' + name)(x, *g()), limit=20)
    if t != 'ok': return fail('x05', 'writing JSON: ' + asc(repr(j0)), **b), s
    t, j1 = call(lambda: json.loads(json.dumps(j0)))
    if t != 'ok': return fail('x05', 'not JSON: ' + asc(repr(j1)), **b), s
    t, j = call(lambda: tojson(j1, k))
    if t != 'ok': return fail('x05', 'not the format: ' + asc(repr(j)), **b), s
    t, o3 = call(lambda: getattr(xigtjson, 'decode_' + name)(j1, *g()), limit=20)
    if t != 'ok': return fail('x05', 'reloading JSON: ' + asc(repr(o3)), **b), s
    # where it was written for
    kw = dict(nsmap=dict(ctx or {}))
    box = call(lambda: dict(igt=lambda: XigtCorpus(igts=[o3], **kw), tier=lambda: Igt(tiers=[o3], **kw), item=lambda: Tier(items=[o3], **kw),
               metadata=lambda: Tier(metadata=[o3], **kw), meta=lambda: Metadata(metas=[o3], **kw), child=lambda: Meta(children=[o3], **kw))[k]())
    if box[0] != 'ok': return fail('x05', 'placing: ' + asc(repr(box[1])), **b), s
    t3, eq3 = call(lambda: o3 == x and x == o3 and not o3 != x)
    c = fail('x05', '', k=k, d=d, after=enc(o) == before, e=opt_blank(e), junk=junk, re=enc(o2, asc), equal=t == 'ok' and eq is True,
             ctx=sorted([asc(a), asc(b)] for a, b in (ctx or {}).items()), j=j, rj=enc(o3, asc), jequal=t3 == 'ok' and eq3 is True)
    return c, (s if isinstance(s, str) else s.decode(encoding, 'replace')) + '\n' + json.dumps([ctx, j1])


def rnd(x):
    pid, seed, doc = x
    rng = random.Random('%s%s' % (pid, seed))
    d = copy.deepcopy(doc['d']) if doc else None
    if pid == 'X01':
        if d is None:
            d = rdoc(rng, True, str(seed).startswith('big'))
            for n in walk(d):
                if n['k'] == 'item' and n['text'] and rng.random() < .03: n['text'] = ['a\rb']
        c, s = x01(d, rng, unblank(doc['e']) if doc and rng.random() < .5 else None)
    elif pid == 'X02':
        if d is None: d = rdoc(rng, True, str(seed).startswith('big'))
        c, s = x02(d, rng)
    elif pid == 'X06':
        if d is None: d = rdoc(rng, rng.random() < .3, str(seed).startswith('big'))
        c, s = x06(d, rng)
    elif pid == 'X05':
        if d is None: d = rdoc(rng, True)
        c, s = x05(d, rng)
    else:
        xml = rng.random() < .6 or doc is not None
        if d is None: d = rdoc(rng, xml, str(seed).startswith('big'))
        c, s = x03(d, rng, xml)
    if c is None: return None
    c['src'] = dict(seed=seed, doc=doc, text=s if isinstance(s, str) else s.decode('utf-8', 'replace'))
    return c


def unblank(e):
    return dict(e, ch=[unblank(c) for c in e['ch']])


def canary(c):
    if c['err']: return None
    n = c['got'] if c['t'] in ('x01', 'x06') else c['re']
    for m in walk(n):
        if m['k'] == 'tier' and len(m['ch']) > 1 and m['ch'][0] != m['ch'][1]:
            m['ch'][0], m['ch'][1] = m['ch'][1], m['ch'][0]
            return c


def judge(ctx, cs):
    for i, m in validate_cases(ctx, 'Trace_Codec', [{k: v for k, v in c.items() if k != 'src'} for c in cs], canary, per=8, batch=2500):
        s = cs[i]['src']
        ctx.violation('%s: %s' % (ctx.pid, ', '.join(m['bad'])), dict(t='rnd', seed=s['seed'], doc=s['doc'], text=s['text'][:20000]))


def run(ctx):
    global SCRATCH
    SCRATCH = ctx.scratch
    cases = []
    run_tlc(ctx, 'MC_Codec', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS XmlLossless JsonLossless' + (' StylesAgree' if ctx.pid == 'X06' else '') + (' PartsLossless' if ctx.pid == 'X05' else '') + '\nCONSTRAINT Emit\n' + consts(N=2 if ctx.quick else 3),
            collect=lambda t, p: cases.append(p), timeout=2500, heap='10g')
    if len(cases) < 1000: raise MachineryError('too few cases')
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.notes['generated_documents'] = len(cases)
    if ctx.pid in ('X03',): cases = [c for c in cases if c['ext']]
    rng = ctx.sub('pick')
    if len(cases) > ctx.n(2500, 20000 if ctx.pid != "X05" else 9000): cases = rng.sample(cases, ctx.n(2500, 20000 if ctx.pid != "X05" else 9000))
    ctx.replayed += len(cases)
    xs = [(ctx.pid, 'mc%s-%d' % (ctx.seed, i), c) for i, c in enumerate(cases)]
    xs += [(ctx.pid, '%s-%d' % (ctx.seed, i), None) for i in range(ctx.n(1500, 16000 if ctx.pid != "X05" else 8000))]
    if ctx.pid != 'X05': xs += [(ctx.pid, 'big%s-%d' % (ctx.seed, i), None) for i in range(ctx.n(6, 40))]
    cs = [c for c in pmap(rnd, xs) if c]
    ctx.sample(dict(kind='text the code was given or wrote', text=cs[-8]['src']['text'][:1500]))
    judge(ctx, [c for c in cs if c])


def replay(ctx, case):
    global SCRATCH
    SCRATCH = ctx.scratch
    cs = [rnd((ctx.pid, case['seed'], case['doc']))] + [rnd((ctx.pid, 'x%d' % k, None)) for k in range(30)]
    judge(ctx, [c for c in cs if c])
