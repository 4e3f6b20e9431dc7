"""C01 C02 C03: containers. Replays the transitions TLC generates from
MC_Containers in every kind of real container, and checks random edit
sessions over whole documents against Trace_Containers."""
import random
from itertools import islice
from lib.core import (Ctx, MachineryError, call, consts, pmap, run_tlc, validate_traces)
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt import xigtpath as xp

ACC = dict(corpus='igt', igt='tier', tier='item', mdlist='metadata',
           metadata='meta', meta='child', child='child')
PROP = dict(corpus='igts', igt='tiers', tier='items', metadata='metas',
            meta='children', child='children')


class Alien(object):
    """Something that is no model object, though it has an id and a text."""
    def __init__(self, id):
        self.id = id
        self.text = None
        self.type = None
        self.attributes = {}


def make(kind, id, val, init=None):
    a = {'v': str(val)}
    id = id or None
    if kind == 'corpus': return XigtCorpus(id=id, attributes=a, igts=init)
    if kind == 'igt': return Igt(id=id, attributes=a, tiers=init)
    if kind == 'tier': return Tier(id=id, attributes=a, items=init)
    if kind == 'item': return Item(id=id, attributes=a, text='t%s' % val)
    if kind == 'metadata':       # text: the older name of metas
        return Metadata(id=id, attributes=a, **{'text' if init and len(init) % 2 else 'metas': init})
    if kind == 'meta': return Meta(id=id, attributes=a, children=init)
    if kind == 'child':
        c = MetaChild('n', attributes=a, children=init)
        if id: c.id = id
        return c
    if kind == 'alien': return Alien(id)
    raise MachineryError(kind)


class World(object):
    """The real objects of a session, indexed from 1 like the things."""
    def __init__(self, things, init=None, holders=None):
        self.things = [dict(t) for t in things]
        self.obj = [None] * (len(things) + 1)
        self.holder = holders or {}       # mdlist index -> index of its owner
        init = init or {}
        # inner things first, so constructors can take their content
        order = ['alien', 'item', 'tier', 'igt', 'corpus', 'child', 'meta', 'metadata']
        todo = [i for k in order for i, t in enumerate(things, 1) if t['kind'] == k]
        done = set()
        while todo:
            rest = []
            for i in todo:
                content = init.get(i, [])
                if all(o in done for o in content):
                    t = things[i - 1]
                    self.obj[i] = make(t['kind'], t['id'], t['val'],
                                       [self.obj[o] for o in content] if content else None)
                    done.add(i)
                else:
                    rest.append(i)
            if len(rest) == len(todo):
                raise MachineryError('cyclic world')
            todo = rest
        for i, t in enumerate(things, 1):
            if t['kind'] == 'mdlist':
                h = self.obj[self.holder[i]]
                if init.get(i):
                    h.metadata = [self.obj[o] for o in init[i]]
                self.obj[i] = h.metadata
        self.ix = {id(o): i for i, o in enumerate(self.obj) if o is not None}

    def kind(self, i):
        return self.things[i - 1]['kind']

    def idx(self, o):
        return self.ix.get(id(o), -9)

    # ---- edits
    def do(self, e):
        op = e['op']
        c = self.obj[e['c']] if e['c'] else None
        o = self.obj[e['o']] if e['o'] else None
        def lst():
            return [self.obj[x] for x in e['os']]
        if op == 'append': c.append(o)
        elif op == 'add': c.add(o)
        elif op == 'insert': c.insert(e['i'], o)
        elif op == 'extend': c.extend(iter(lst()) if e['i'] else lst())
        elif op == 'addlist': c.add_list(lst())
        elif op == 'set': c[e['i']] = o
        elif op == 'setn': c[str(e['i'])] = o
        elif op == 'setid': c[e['k']] = o
        elif op == 'del': del c[e['i']]
        elif op == 'deln': del c[str(e['i'])]
        elif op == 'delid': del c[e['k']]
        elif op in ('pop', 'poplast'):
            a = (e['i'],) if op == 'pop' else ()
            want = list(c)[a[0] if a else -1]
            if c.pop(*a) is not want: raise ValueError('another object popped')
        elif op == 'delslice': del c[e['i']:e['i'] + 2]
        elif op == 'setslice': c[e['i']:e['i'] + 1] = [o]
        elif op == 'iadd':
            x = c
            x += lst()
            if x is not c: raise ValueError('another list')
        elif op == 'iaddp':
            k = self.kind(e['c'])
            if k == 'mdlist': self.obj[self.holder[e['c']]].metadata = list(c) + lst()
            elif k == 'corpus': c.igts += lst()
            else: exec('c.%s += x' % PROP[k], dict(c=c, x=lst()))
        elif op == 'remove': c.remove(o)
        elif op == 'clear': c.clear()
        elif op == 'assign':
            k = self.kind(e['c'])
            new = iter(lst()) if e['i'] else lst()
            if k == 'mdlist':
                self.obj[self.holder[e['c']]].metadata = new
            else:
                setattr(c, 'text' if k == 'metadata' and len(e['os']) % 2 else PROP[k], new)
        elif op == 'assignone':
            if self.kind(e['c']) == 'mdlist': self.obj[self.holder[e['c']]].metadata = o
            elif self.kind(e['c']) == 'metadata': Metadata(text=lst(), metas=lst())
            else: c.append(None)
        elif op == 'reassign':
            src = (lambda: c, lambda: (x for x in c), lambda: reversed(c))[e['i']]()
            if self.kind(e['c']) == 'mdlist':
                self.obj[self.holder[e['c']]].metadata = src
            else:
                setattr(c, PROP[self.kind(e['c'])], src)
        elif op == 'reextend': c.extend(c)
        elif op == 'sort':
            ks = e['os']
            c.sort(key=lambda x: ks[self.idx(x) - 1])
        elif op == 'reverse': c.reverse()
        elif op == 'refresh': c.refresh_index()
        elif op == 'badid':
            o.id = e['k']
        elif op == 'badnew':        # as in badid, for an object yet to be made
            k = self.kind(e['o'])
            c.append(MetaChild(e['k']) if k == 'child' else make(k, e['k'], 1))
        elif op == 'rename':
            self.rename([e['o']], [e['k']])
        elif op == 'rotate':
            ids = [self.things[x - 1]['id'] for x in e['os']]
            self.rename(e['os'], ids[1:] + ids[:1])
        else:
            raise MachineryError(op)

    def rename(self, os, ids):
        for o, k in zip(os, ids):
            self.obj[o].id = k or None
            self.things[o - 1]['id'] = k
        for i in range(1, len(self.obj)):
            if self.kind(i) in ACC and any(x is self.obj[o] for x in list(self.obj[i]) for o in os):
                self.obj[i].refresh_index()

    # ---- observations
    def view(self, i, ids):
        c = self.obj[i]
        k = self.kind(i)
        def seq(f):
            t, v = call(f)
            if t != 'ok': return [-8]
            return [self.idx(x) for x in islice(v, 200)]    # endless ones are wrong anyway
        def one(f):
            t, v = call(f)
            if t != 'ok':
                return 0 if isinstance(v, KeyError) else -8
            return 0 if v is None else self.idx(v)
        t, n = call(lambda: len(c))
        if t != 'ok': n = -8
        def oob():
            bad = 0
            for j in (n, -n - 1, str(n), n + 3):
                try:
                    c[j]
                    bad += 1
                except IndexError:
                    pass
            return bad == 0 and c.get(n) is None and c.get(-n - 1) is None
        t, ob = call(oob)
        prop = (lambda: self.obj[self.holder[i]].metadata) if k == 'mdlist' else (lambda: getattr(c, PROP[k] if k != 'metadata' or n % 2 else 'text'))
        return dict(
            it=seq(lambda: iter(c)), prop=seq(prop), len=n,
            fwd=seq(lambda: [c[j] for j in range(min(n, 200))]),
            neg=seq(lambda: [c[-j] for j in range(1, min(n, 200) + 1)]),
            num=seq(lambda: [c[str(j)] for j in range(min(n, 200))]),
            sl=[seq(lambda: c[a:b]) for a, b in ((None, 2), (1, None), (-2, None), (0, -1), (2, 1))],
            oob=bool(t == 'ok' and ob),
            get=[one(lambda: c.get(x)) for x in ids],
            item=[one(lambda: c[x]) for x in ids])

    def owner(self, i):
        o = self.obj[i]
        k = self.kind(i)
        if k in ('corpus', 'alien', 'mdlist'):
            return 0
        if k == 'igt': f = lambda: o.corpus
        elif k == 'tier': f = lambda: o.igt
        elif k == 'item': f = lambda: o.tier
        else: f = lambda: xp.find(o, '..')
        t, v = call(f)
        if t != 'ok':
            return 0 if isinstance(v, AttributeError) and k in ('metadata',) else -8
        if v is None:
            return 0
        j = self.idx(v)
        if k == 'metadata':
            for m, h in self.holder.items():
                if h == j:
                    return m
            return -9
        return j

    def chain(self, own):
        """Owners further up, attribute inheritance and path navigation all
        follow the direct owners."""
        def up(i):
            j = own[i - 1]
            if j in self.holder: j = self.holder[j]
            return j if j > 0 else None
        for i in range(1, len(self.obj)):
            k = self.kind(i)
            if k not in ('igt', 'tier', 'item', 'metadata', 'meta', 'child'): continue
            o = self.obj[i]
            anc = []
            j = up(i)
            while j is not None and j != i and j not in anc:
                anc.append(j)
                j = up(j)
            if j is not None:
                continue        # stale owners of removed children may form a ring
            exp = {self.kind(a): self.obj[a] for a in reversed(anc)}
            names = {'tier': ('igt', 'corpus'), 'item': ('tier', 'igt', 'corpus'), 'igt': ('corpus',)}.get(k, ())
            for nm in names:
                t, v = call(lambda: getattr(o, nm))
                if t != 'ok' or v is not exp.get(nm):
                    return '%d.%s' % (i, nm)
            if anc:
                t, v = call(lambda: xp.find(o, '..'))
                if t != 'ok' or v is not self.obj[anc[0]]:
                    return '%d/..' % i
                key = 'u%d' % anc[-1]
                top = self.obj[anc[-1]]
                top.attributes[key] = 'x'
                t, v = call(lambda: o.get_attribute(key, inherit=True))
                del top.attributes[key]
                if t != 'ok' or v != 'x':
                    return '%d inherit' % i
                top.nsmap = {'q': 'http://q/'}
                t, v = call(lambda: dict(o.nsmap))
                top.nsmap = None
                if t != 'ok' or v != {'q': 'http://q/'}:
                    return '%d nsmap' % i
        return 'ok'

    def observe(self, ids):
        own = [self.owner(i) for i in range(1, len(self.obj))]
        return dict(con=[self.view(i, ids) if self.kind(i) in ACC else [] for i in range(1, len(self.obj))],
                    own=own, chain=self.chain(own))

    def step(self, e):
        t, v = call(self.do, e)
        return t == 'ok'


# ------------------------------------------------- generated transitions

# the two containers and objects of MC_Containers in every container kind
PAIRS = ['igt', 'tier', 'item', 'metadata', 'meta', 'child', 'grandchild']


def mc_world(pair):
    ck = {'igt': 'corpus', 'tier': 'igt', 'item': 'tier', 'metadata': 'mdlist',
          'meta': 'metadata', 'child': 'meta', 'grandchild': 'child'}[pair]
    ok = 'child' if pair == 'grandchild' else pair
    alien = 'alien'
    objs = [('a', 1), ('a', 2), ('', 1), ('', 1), ('b', 1)]
    things = [dict(kind=ck, id='', val=0), dict(kind=ck, id='', val=0)]
    things += [dict(kind=ok, id=i, val=v) for i, v in objs]
    # wrong kind: a model object of another kind half of the time
    things.append(dict(kind={'igt': 'tier', 'tier': 'item', 'item': 'tier', 'metadata': 'meta',
                             'meta': 'item', 'child': 'meta', 'grandchild': 'item'}[pair], id='a', val=1))
    holders = {}
    if pair == 'metadata':
        things += [dict(kind='igt', id='h1', val=0), dict(kind='corpus', id='h2', val=0)]
        holders = {1: 9, 2: 10}
    return things, holders


IDS = ['a', 'b', 'c', '0']


def replay_case(arg):
    pair, case = arg
    things, holders = mc_world(pair)
    w = World(things, holders=holders)
    prev = None
    for j, e in enumerate(case['h']):
        if j == len(case['h']) - 1:
            prev = [w.owner(i) for i in range(1, len(w.obj))]
        ok = w.step(e)
    e = case['h'][-1]
    got = [w.view(1, IDS), w.view(2, IDS)]
    own = [w.owner(i) for i in range(1, 9)]
    bad = set()
    if ok != case['ok']:
        bad.add('C02')
    for g, v in zip(got, case['v']):
        # '0' is no id: as a numeral it is the first object
        look = v['look'][:3]
        first = v['it'][0] if v['it'] else 0
        numl = look + [first]
        item0 = numl[:3] + [first if v['it'] else -8]
        if (g['it'] != v['it'] or g['prop'] != v['it'] or g['len'] != v['len'] or g['fwd'] != v['it']
                or g['neg'] != v['neg'] or g['num'] != v['it'] or g['sl'] != v['sl'] or not g['oob']
                or g['get'] != numl or g['item'] != item0):
            bad.add('C01')
            if not case['ok']: bad.add('C02')
    for i in range(8):
        if case['fixed'][i] and own[i] != case['own'][i]:
            bad.add('C03')
    if not case['ok'] and e['op'] not in ('extend', 'assign', 'reassign', 'reextend', 'iadd', 'iaddp') and own != prev[:8]:
        bad.add('C02')
    if w.chain(own + [w.owner(i) for i in range(9, len(w.obj))]) != 'ok':
        bad.add('C03')
    if not bad:
        return None
    return dict(bad=sorted(bad), pair=pair, case=case, got=dict(ok=ok, own=own, v=got))


def mc(ctx):
    """Quick: all edits on one container up to three objects, and two
    containers with renaming; each transition replayed in one or more kinds.
    Thorough: deeper, in every kind."""
    rng = ctx.sub('mc')
    confs = ctx.n([dict(MaxLen=3, MaxLen2=0, Rich=False, Two=False, Rot=True),
                   dict(MaxLen=2, MaxLen2=1, Rich=False, Two=True)],
                  [dict(MaxLen=3, MaxLen2=0, Rich=False, Two=False, Rot=True),
                   dict(MaxLen=4, MaxLen2=0, Rich=True, Two=False),
                   dict(MaxLen=2, MaxLen2=1, Rich=True, Two=True),
                   dict(MaxLen=2, MaxLen2=0, Rich=False, Two=False, LastInView=True)])
    total = 0
    for conf in confs:
        conf.setdefault('LastInView', False)
        conf.setdefault('Rot', False)
        cases = []
        run_tlc(ctx, 'MC_Containers',
                consts(**conf) + 'INIT Init\nNEXT Next\nVIEW TheView\nINVARIANT Inv\n'
                'PROPERTY RefusedKeeps\nACTION_CONSTRAINT Emit\n',
                collect=lambda t, p: cases.append(p), timeout=3000)
        if len(cases) < 1000:
            raise MachineryError('too few generated transitions: %d' % len(cases))
        total += len(cases)
        if ctx.quick:
            jobs = [(rng.choice(PAIRS), c) for c in cases]
        else:
            jobs = [(p, c) for c in cases for p in rng.sample(PAIRS, 3)]
        ctx.replayed += len(jobs)
        ctx.sample(dict(kind='transition', pair=jobs[0][0], case=jobs[0][1]))
        for r in pmap(replay_case, jobs):
            if r is not None and ctx.pid in r['bad']:
                ctx.violation('%s container after %s' % (r['pair'], [x['op'] for x in r['case']['h']]),
                              dict(t='mc', pair=r['pair'], case=r['case'], got=r['got']))
    ctx.notes['generated_transitions'] = total


# ------------------------------------------------------ random sessions

def rand_world(rng):
    things = []
    def add(kind, id='', val=0):
        things.append(dict(kind=kind, id=id, val=val))
        return len(things)
    style = rng.choice(['doc', 'doc', 'meta', 'leaf'])
    ids = ['a', 'b', 'c', 'd', 'e1', 'x.y-z_', 'É1'[0:0] + 'q9']
    def rid():
        return rng.choice(ids + ['', '', ''])
    val = lambda: rng.randint(1, 2)
    holders = {}
    if style == 'doc':
        for _ in range(rng.randint(1, 2)): add('corpus', rid(), val())
        for _ in range(rng.randint(2, 4)): add('igt', rid(), val())
        for _ in range(rng.randint(2, 5)): add('tier', rid(), val())
        for _ in range(rng.randint(3, 6)): add('item', rid(), val())
    elif style == 'meta':
        hs = [add(k, '', val()) for k in rng.sample(['corpus', 'igt', 'tier'], 2)]
        for h in hs:
            m = add('mdlist')
            holders[m] = h
        for _ in range(rng.randint(2, 4)): add('metadata', rid(), val())
        for _ in range(rng.randint(2, 4)): add('meta', rid(), val())
        for _ in range(rng.randint(3, 6)): add('child', rid() if rng.random() < .4 else '', val())
    else:
        for _ in range(2): add('tier', rid(), val())
        for _ in range(rng.randint(6, 10)): add('item', rid(), val())
    add('alien', rid(), 1)
    # initial content through the constructors
    init = {}
    n = len(things)
    used = set()
    for i in range(1, n + 1):
        k = things[i - 1]['kind']
        if k in ACC and rng.random() < .6:
            cand = [o for o in range(1, n + 1) if things[o - 1]['kind'] == ACC[k]
                    and o not in used and (k != 'child' or o > i)]
            rng.shuffle(cand)
            content, seen = [], set()
            for o in cand[:rng.randint(0, 4)]:
                oid = things[o - 1]['id']
                if oid and oid in seen: continue
                seen.add(oid)
                content.append(o)
                used.add(o)
            if content: init[i] = content
    return things, holders, init, ids


def rand_session(arg):
    seed, length = arg
    rng = random.Random(seed)
    things, holders, init, ids = rand_world(rng)
    w = World(things, init=init, holders=holders)
    n = len(things)
    mem = [init.get(i, []) for i in range(1, n + 1)]
    own = [0] * n
    for i, content in init.items():
        for o in content: own[o - 1] = i
    lookids = ids + ['zz']
    obs0 = w.observe(lookids)
    nil = dict(op='start', c=0, o=0, os=[], i=0, k='')
    ev = [dict(e=nil, ok=True, obs=obs0)]
    cons = [i for i in range(1, n + 1) if things[i - 1]['kind'] in ACC]
    focus = rng.sample(cons, min(len(cons), rng.randint(1, 3)))

    def reach(a, b):
        """would placing b in a make a cycle of nested children?"""
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x == a: return True
            if x in seen: continue
            seen.add(x)
            if w.kind(x) in ACC:
                todo.extend(j for j in map(w.idx, list(w.obj[x])) if j > 0)
        return False

    for _ in range(length):
        c = rng.choice(focus if rng.random() < .7 else cons)
        acc = ACC[w.kind(c)]
        good = [o for o in range(1, n + 1) if w.kind(o) == acc and not reach(c, o)]
        cur = [w.idx(x) for x in list(w.obj[c])]
        anyo = good if rng.random() < .9 and good else \
            [o for o in range(1, n + 1) if w.kind(o) not in ('mdlist', 'corpus') and not reach(c, o)]
        pick = lambda: rng.choice(anyo) if anyo else n
        m = len(cur)
        ri = lambda: rng.choice([0, -1, m - 1, m, -m, rng.randint(-m - 2, m + 2), 7, -7])
        op = rng.choice(['append'] * 4 + ['insert'] * 4 + ['extend', 'extend', 'addlist', 'add', 'set', 'set', 'set',
                        'setn', 'setid', 'pop', 'pop', 'poplast', 'delslice', 'setslice', 'iadd', 'iaddp', 'del', 'del', 'deln', 'delid', 'delid', 'remove', 'remove',
                        'remove', 'clear', 'assign', 'assignone', 'reassign', 'reextend', 'sort', 'reverse', 'rename', 'rotate', 'rotate', 'refresh', 'badid', 'badnew'])
        e = dict(op=op, c=c, o=0, os=[], i=0, k='')
        if op in ('append', 'add'): e['o'] = pick()
        elif op in ('badid', 'badnew'):
            e['o'] = rng.choice([o for o in range(1, n + 1) if w.kind(o) not in ('mdlist', 'alien')])
            e['k'] = rng.choice(['1', '0a', '-b', ' a', '.x', '\na', '[a]', '!'])
        elif op == 'assignone': e['o'] = rng.choice(good) if good else n
        elif op in ('insert', 'set', 'setn', 'setslice'): e['o'] = pick(); e['i'] = ri()
        elif op == 'reassign': e['i'] = rng.randint(0, 2)
        elif op == 'reextend' and m > 12: continue
        elif op == 'setid': e['o'] = pick(); e['k'] = rng.choice(ids)
        elif op in ('del', 'deln', 'pop', 'delslice'): e['i'] = ri()
        elif op == 'delid': e['k'] = rng.choice(ids + ['zz'])
        elif op in ('extend', 'addlist', 'assign', 'iadd', 'iaddp'):
            os = [pick() for _ in range(rng.randint(0, 4))]
            if op == 'assign' and rng.random() < .6:
                os = list(cur)
                rng.shuffle(os)
                os = os[:rng.randint(0, len(os))]
                for _ in range(rng.randint(0, 2)): os.insert(rng.randint(0, len(os)), pick())
            e['os'] = os
            e['i'] = rng.randint(0, 1)
        elif op == 'remove':
            o = rng.choice(cur) if cur and rng.random() < .8 else pick()
            if o < 1: continue
            if o not in cur and any(call(lambda: x == w.obj[o])[1] for x in list(w.obj[c])):
                continue                  # an equal object: which one goes is not specified
            e['o'] = o
        elif op == 'sort': e['os'] = [rng.randint(0, 3) for _ in range(n)]
        elif op == 'rename':
            e['o'] = rng.choice([o for o in range(1, n + 1) if w.kind(o) not in ('mdlist', 'alien')])
            k = rng.choice(ids + [''])
            obj = w.obj[e['o']]
            clash = False
            for x in cons:
                xs = list(w.obj[x])
                if any(y is obj for y in xs) and k and (
                        sum(y is obj for y in xs) > 1 or any(y is not obj and y.id == k for y in xs)):
                    clash = True
            if clash: continue
            e['k'] = k
            e['c'] = 0
        elif op == 'rotate':
            pool = [o for o in set(cur if rng.random() < .7 else good) if o > 0 and w.kind(o) != 'alien']
            if len(pool) < 2: continue
            os = rng.sample(pool, rng.randint(2, min(3, len(pool))))
            new = [w.things[o - 1]['id'] for o in os]
            new = dict(zip(os, new[1:] + new[:1]))
            clash = False
            for x in cons:
                xs = [w.idx(y) for y in list(w.obj[x])]
                ks = [k for k in (new.get(y, w.things[y - 1]['id']) for y in xs if y > 0) if k]
                clash = clash or len(ks) != len(set(ks))
            if clash: continue
            e.update(os=os, c=0)
        ok = w.step(e)
        obs = w.observe(lookids)
        ev.append(dict(e=e, ok=ok, obs=obs))
        if any(-9 in v['it'] or -8 in v['it'] or v['len'] > 150 for v in obs['con'] if v):
            break
    return dict(init=dict(thing=things, mem=mem, own=own), own0=obs0['own'], ids=lookids, ev=ev,
                seed=seed, length=length)


def canary(t):
    """Swap two objects in one recorded order, or drop a lookup."""
    for x in t['ev']:
        for v in x['obs']['con']:
            if v and len(v['it']) >= 2:
                v['it'][0], v['it'][1] = v['it'][1], v['it'][0]
                if v['it'] != v['fwd']:
                    return t
    return None


def run(ctx):
    mc(ctx)
    n, length = ctx.n((260, 40), (3000, 80))
    jobs = [('%s-%d' % (ctx.seed, i), ctx.sub(i).choice([8, length])) for i in range(n)]
    traces = pmap(rand_session, jobs)
    batch = 400
    for i in range(0, len(traces), batch):
        part = traces[i:i + batch]
        for m in validate_traces(ctx, 'Trace_Containers', part, canary if i == 0 else None):
            if ctx.pid in m['bad']:
                t = m['trace']
                ctx.violation('edit session, event %d %s: %s' % (m['l'], t['ev'][m['l'] - 1]['e'], m['bad']),
                              dict(t='trace', seed=t['seed'], length=t['length'], l=m['l'],
                                   edits=[x['e'] for x in t['ev'][:m['l']]], init=t['init'], expected=m['exp'],
                                   seen=t['ev'][m['l'] - 1]['obs']))
    ctx.sample(dict(kind='session', things=traces[0]['init']['thing'], edits=[x['e'] for x in traces[0]['ev'][:8]]))
    ctx.assumptions += ['objects removed from a container report no particular owner',
                        'nesting a child in itself is not generated']


def replay(ctx, case):
    if case['t'] == 'mc':
        r = replay_case((case['pair'], case['case']))
        ctx.replayed += 1
        if r is not None and ctx.pid in r['bad']:
            ctx.violation('replayed', case)
    else:
        t = rand_session((case['seed'], case['length']))
        for m in validate_traces(ctx, 'Trace_Containers', [t], canary):
            if ctx.pid in m['bad']:
                ctx.violation('replayed', case)
