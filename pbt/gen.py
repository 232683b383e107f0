"""Generators of histories (all choices come from the rng they are given)."""
from model import Model, Refused

COLORS = 'rgb'
LARGE = 0.004           # share of histories with many nodes
LONG = 0.0              # share of very long histories


def set_tier(tier):
    global LARGE, LONG
    LARGE, LONG = (0.02, 0.05) if tier == 'thorough' else (0.004, 0.0)
WEIRD = [
    ['added', 'deleted', 'modified', 'reordered', 'runonce', 'node-added'],
    ['a', 'aa', 'aaa', 'aaaa', 'ab', 'b'],
    ['0', '1', '10', '01', '-1', '1.0', '00'],
    [u'\xe9', u'\u65e5\u672c', u'\u03a9 x', u'\U0001f600', u'e\u0301'],
    ['%s', '{}', '{0}', "it's", 'a,b', '<b>&', 'a b', '"q"', '\\n'],
    ['ROOT', 'Root', 'None', 'True', 'main', 'self', 'root2', 'parents'],
    ['x' * 60, 'x' * 59, 'x' * 59 + 'y', 'x'],
    ['tail ', 'tail', ' tail', 'Tail', 'TAIL', 'ta il'],
]
VIEW_NAMES = ['work', 'all tasks', u'vue \xe9', 'w', 'ww', '%s', 'None', 'tags', '', 'W',
              'w ', 'Tags', 'MAIN', 'root']


def pick_ids(rng, n):
    if rng.random() < 0.75:
        pre = rng.choice(['n', 'n', 't', ''])
        return [pre + str(i) for i in range(n)]
    pool = []
    for grp in rng.sample(WEIRD, len(WEIRD)):
        pool += grp
        if len(pool) >= n:
            break
    rng.shuffle(pool)
    pool = pool[:n]
    i = 0
    while len(pool) < n:
        pool.append('z%d' % i)
        i += 1
    return pool


OWN = [['has', 'r'], ['has', 'g'], ['has', 'b'], ['hasany', 'rg'], ['val', 2],
       ['valmod', 0], ['colors'], ['num'], ['yes', 'g'], ['all'], ['param'],
       ['none']]
DEEP = [['leaf'], ['parent'], ['nkids', 2], ['rec', 'r'], ['rec', 'b'],
        ['orchild', 'r', 'b'], ['last', 'g'], ['norec', 'r']]


def pick_filters(rng, kinds='both', n=None, ids=()):
    """ [[name, spec, params], ...] """
    n = n if n is not None else rng.randint(2, 5)
    out = []
    names = rng.sample(['red', 'blue', 'deep', 'flat one', 'f', 'ff', 'work',
                        'x%sy', u'\xfc', 'added', '!f', '', 'F', 'Red',
                        'f '], n)
    for name in names:
        r = rng.random()
        if kinds == 'own' or (kinds == 'both' and r < 0.5):
            spec = rng.choice(OWN[:-1] if rng.random() < 0.95 else OWN)
            if ids and rng.random() < 0.15:
                spec = ['id', sorted(rng.sample(ids, rng.randint(1, len(ids))))]
        else:
            spec = rng.choice(DEEP)
        params = pick_params(rng)
        if out and rng.random() < 0.15:
            # the same function with other parameters
            spec, params = rng.choice(out)[1], pick_params(rng, True)
        out.append([name, spec, params])
    return out


def truth(rng, v):
    """ mostly True or False, sometimes what counts as such """
    if rng.random() < 0.8:
        return v
    return rng.choice([1, 'yes', 2] if v else [0, None, ''])


def pick_params(rng, force=False):
    p = {}
    if rng.random() < 0.18:
        p['flat'] = truth(rng, rng.random() < 0.85)
    if rng.random() < 0.2:
        p['negate'] = truth(rng, rng.random() < 0.85)
    if rng.random() < 0.2:
        p['c'] = rng.choice(COLORS)
    if force and not p:
        p['c'] = rng.choice(COLORS)
    return p or None


STRUCT = {'add': 6, 'addp': 9, 'del': 5, 'delr': 3, 'move': 6, 'moveroot': 2,
          'addpar': 8, 'addch': 3, 'rempar': 5, 'nodeaddpar': 2, 'setpar': 2}
PRE = {'new': 3, 'preadd': 3}
EN = {'enp': 2, 'enc': 2}
DATA = {'data': 14, 'mod': 2, 'refall': 1}
FILT = {'apply': 6, 'unapply': 4, 'reset': 1}


def weights(*parts, **kw):
    out = {}
    for p in parts:
        for k, v in p.items():
            out[k] = out.get(k, 0) + v
    out.update(kw)
    return {k: v for k, v in out.items() if v}


class Gen(object):
    def __init__(self, rng, size=None, ids=None):
        self.rng = rng
        r = rng.random()
        if size is None:
            size = (rng.randint(2, 6) if r < 0.68 else
                    rng.randint(6, 11) if r < 0.93 else rng.randint(12, 24))
        if ids is None and rng.random() < LARGE:
            size = rng.randint(25, 70)
        self.ids = ids or pick_ids(rng, size)
        self.m = Model()
        self.ops = []
        self.filters, self.views = [], []

    # ---- choices
    def colors(self):
        return ''.join(c for c in COLORS if self.rng.random() < 0.45)

    def val(self):
        return self.rng.randint(0, 4)

    def any(self):
        return self.rng.choice(self.ids)

    def have(self):
        """ mostly an existing node """
        if self.m.nodes and self.rng.random() < 0.93:
            return self.rng.choice(list(self.m.nodes))
        return self.any()

    def missing(self):
        out = [x for x in self.ids if x not in self.m.nodes]
        return self.rng.choice(out) if out else self.any()

    def fname(self):
        if self.filters and self.rng.random() < 0.96:
            return self.rng.choice(self.filters)[0]
        return self.rng.choice(['unknown', 'unknown', '!red'])

    def vidx(self):
        return self.rng.randrange(max(1, len(self.views)))

    # ---- emitting
    def emit(self, *op):
        op = list(op)
        self.ops.append(op)
        m = self.m.copy()
        k, a = op[0], op[1:]
        try:
            if k == 'new':
                if m.new(a[0]) and a[1] is not None:
                    m.add_parent(a[0], a[1])
            elif k == 'add':
                m.add(a[0], a[1])
            elif k == 'del':
                m.delete(*a)
            elif k == 'move':
                m.move(*a)
            elif k == 'setpar':
                m.set_parent(*a)
            elif k in ('addpar', 'nodeaddpar'):
                m.add_parent(*a)
            elif k == 'addch':
                m.add_child(*a)
            elif k == 'rempar':
                m.remove_parent(*a)
            elif k == 'enp':
                m.set_parents_enabled(*a)
            elif k == 'enc':
                m.set_children_enabled(*a)
            else:
                return
        except Refused:
            return
        if m.count_paths() <= (400 if len(self.ids) < 25 else 180):
            self.m = m
        else:
            self.ops.pop()

    def op(self, kind):
        rng = self.rng
        if kind == 'add':
            x = self.missing() if rng.random() < 0.95 else self.any()
            self.emit('add', x, None, self.colors(), self.val())
        elif kind == 'addp':
            x = self.missing() if rng.random() < 0.95 else self.any()
            self.emit('add', x, self.have(), self.colors(), self.val())
        elif kind == 'new':
            self.emit('new', self.missing(),
                      self.any() if rng.random() < 0.5 else None)
        elif kind == 'preadd':
            loose = [x for x in self.m.loose]
            x = rng.choice(loose) if loose else self.any()
            self.emit(rng.choice(['nodeaddpar', 'addch', 'nodeaddpar', 'addch',
                                  'setpar']), x, self.any())
        elif kind == 'del':
            self.emit('del', self.have(), False)
        elif kind == 'delr':
            self.emit('del', self.have(), True)
        elif kind == 'move':
            self.emit('move', self.have(), self.have())
        elif kind == 'moveroot':
            self.emit('move', self.have(), None)
        elif kind == 'setpar':
            self.emit('setpar', self.have(), self.have()
                      if rng.random() < 0.7 else self.any())
        elif kind == 'addpar':
            self.emit('addpar', self.have(), self.have())
        elif kind == 'nodeaddpar':
            self.emit('nodeaddpar', self.have(), self.have())
        elif kind == 'addch':
            self.emit('addch', self.have(), self.have())
        elif kind == 'rempar':
            x = self.have()
            ps = self.m.nodes[x].parents if x in self.m.nodes else []
            if not ps:
                kids = [y for y in self.m.nodes if self.m.nodes[y].parents]
                if kids and rng.random() < 0.8:
                    x = rng.choice(kids)
                    ps = self.m.nodes[x].parents
            self.emit('rempar', x, rng.choice(ps) if ps and
                      rng.random() < 0.9 else self.any())
        elif kind == 'enp':
            self.emit('enp', self.have() if rng.random() < 0.8 else self.any(),
                      rng.random() < 0.5)
        elif kind == 'enc':
            self.emit('enc', self.have() if rng.random() < 0.8 else self.any(),
                      rng.random() < 0.5)
        elif kind == 'data':
            self.emit('data', self.have(), self.colors(), self.val(),
                      rng.choice([0, 0, 0, 1, 1, 2, 3]))
        elif kind == 'mod':
            self.emit('mod', self.have())
        elif kind == 'refall':
            self.emit('refall')
        elif kind == 'apply':
            self.emit('apply', self.vidx(), self.fname(),
                      pick_params(rng, True) if rng.random() < 0.12 else None,
                      rng.random() < 0.12)
        elif kind == 'unapply':
            self.emit('unapply', self.vidx(), self.fname())
        elif kind == 'reset':
            self.emit('reset', self.vidx())
        elif kind == 'multi':
            sub = []
            for _ in range(rng.randint(1, 4)):
                r = rng.random()
                if r < 0.55:
                    sub.append(['apply', self.fname(),
                                pick_params(rng, True)
                                if rng.random() < 0.2 else None,
                                rng.random() < 0.15, False])
                elif r < 0.85:
                    sub.append(['unapply', self.fname(), False])
                else:
                    sub.append(['reset', False])
            last = rng.choice(['apply', 'apply', 'unapply', 'reset', None])
            if last == 'apply':
                sub.append(['apply', self.fname(), None, False, True])
            elif last == 'unapply':
                sub.append(['unapply', self.fname(), True])
            elif last == 'reset':
                sub.append(['reset', True])
            self.emit('multi', self.vidx(), sub)
        elif kind == 'view':
            sub = None
            if rng.random() < 0.4:
                sub = [['apply', self.fname(), None, False,
                        rng.random() < 0.7]
                       for _ in range(rng.randint(1, 2))]
            self.emit('view', rng.choice(VIEW_NAMES)
                      if rng.random() < 0.5 else None, sub)
            self.views.append({})
        elif kind == 'addf':
            name = (rng.choice(self.filters)[0] if self.filters and
                    rng.random() < 0.7 else rng.choice(['new1', 'new2']))
            spec = rng.choice(OWN[:-1] + self.deep_specs)
            self.emit('addf', name, spec, pick_params(rng))
            if name not in [f[0] for f in self.filters]:
                self.filters.append([name, spec, None])
        elif kind == 'remf':
            self.emit('remf', self.fname())
        else:
            raise KeyError(kind)

    deep_specs = DEEP

    def build(self):
        """ Some initial hierarchy, made in one of many ways """
        rng = self.rng
        ids = self.ids[:]
        rng.shuffle(ids)
        ids = ids[:rng.randint(max(1, len(ids) - 2), len(ids))]
        shape = rng.choice(['random', 'random', 'random', 'chain', 'star',
                            'ladder', 'many', 'flat', 'none'])
        edges = []
        n = len(ids)
        if shape == 'random':
            for i in range(1, n):
                for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                    edges.append((ids[rng.randrange(i)], ids[i]))
        elif shape == 'chain':
            edges = [(ids[i], ids[i + 1]) for i in range(n - 1)]
        elif shape == 'star':
            edges = [(ids[0], x) for x in ids[1:]]
        elif shape == 'ladder':
            for i in range(2, n):
                edges.append((ids[i - 2], ids[i]))
                if rng.random() < 0.6 and i >= 3:
                    edges.append((ids[i - 3 + (i % 2)], ids[i]))
        elif shape == 'many':
            k = max(1, n - rng.choice([1, 1, 2, 3]))
            edges = [(p, c) for c in ids[k:] for p in ids[:k]]
        elif shape == 'none':
            return
        order = ids[:]
        mode = rng.random()
        if mode < 0.5:
            rng.shuffle(order)
        elif mode < 0.65:
            order.reverse()
        if mode < 0.8:
            for x in order:
                ps = [p for p, c in edges if c == x]
                if ps and rng.random() < 0.5:
                    p = rng.choice(ps)
                    edges.remove((p, x))
                    self.emit('add', x, p, self.colors(), self.val())
                else:
                    self.emit('add', x, None, self.colors(), self.val())
            rng.shuffle(edges)
            for p, c in edges:
                self.rel(p, c)
        else:
            # interleaved: relations as soon as possible
            done = set()
            for x in order:
                self.emit('add', x, None, self.colors(), self.val())
                done.add(x)
                for p, c in edges:
                    if x in (p, c) and p in done and c in done:
                        self.rel(p, c)

    def rel(self, p, c):
        r = self.rng.random()
        if r < 0.6:
            self.emit('addpar', c, p)
        elif r < 0.8:
            self.emit('nodeaddpar', c, p)
        else:
            self.emit('addch', p, c)

    def run(self, wts, n):
        kinds = sorted(wts)
        w = [wts[k] for k in kinds]
        for k in self.rng.choices(kinds, w, k=n):
            self.op(k)

    def length(self):
        r = self.rng.random()
        if LONG and r < LONG:
            return self.rng.randint(60, 250)
        return (self.rng.randint(1, 8) if r < 0.3 else
                self.rng.randint(8, 20) if r < 0.85 else
                self.rng.randint(20, 60))


def history(rng, wts, filters='both', nviews=(1, 3), size=None, named=True,
            prefilter=True, build=True):
    g = Gen(rng, size)
    if filters:
        g.filters = pick_filters(rng, filters, ids=g.ids)
        for f in g.filters:
            if f[2] is None:
                f[2] = None
    nv = rng.randint(*nviews)
    names = rng.sample(VIEW_NAMES, min(nv, len(VIEW_NAMES)))
    g.views = [{'name': names[i]} if named and rng.random() < 0.5 else {}
               for i in range(nv)]
    if build and rng.random() < 0.93:
        g.build()
    if prefilter and nv and g.filters:
        for i in range(nv):
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                g.emit('apply', i, rng.choice(g.filters)[0], None, False)
    g.run(wts, g.length())
    cfg = {'filters': g.filters, 'views': g.views[:nv]}
    if rng.random() < 0.25:
        # the answers are not asked for after every operation
        cfg['sparse'] = rng.choice([2, 2, 3, 3, 5, 7, 10 ** 6])
    return {'cfg': cfg, 'ops': g.ops}
