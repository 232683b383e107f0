"""C01-C05, C24: the hierarchy of the whole tree."""
import sys

import gen
from checks import Check
from model import Model
from world import NULL, World, Violation, Nd


def lst(x, what):
    if not isinstance(x, (list, tuple)):
        raise Violation('type', '%s is %r, not a list' % (what, x))
    return list(x)


def scribble(told, n):
    """ callers may do what they like with the answers """
    if isinstance(told, list):
        if n % 2:
            told.append('nothing')
        else:
            del told[:1]


def real_state(t):
    """ (top level, {id: (parents, children)}) through the public interface """
    mv = t.get_main_view()
    out = {}
    for x in lst(mv.get_all_nodes(), 'get_all_nodes'):
        n = t.get_node(x)
        out[x] = (lst(n.get_parents(), 'get_parents'),
                  lst(n.get_children(), 'get_children'))
    return lst(mv.node_all_children(), 'node_all_children'), out


def integrity(t, deep=True):
    root, st = real_state(t)
    ids = lst(t.get_main_view().get_all_nodes(), 'get_all_nodes')
    if len(ids) != len(set(ids)):
        raise Violation('dup', 'nodes listed twice: %s' % ids)
    if len(root) != len(set(root)):
        raise Violation('dup', 'top level lists a node twice: %s' % root)
    for x in root:
        if x not in st:
            raise Violation('ghost', 'top level lists %r which is not in the '
                            'tree' % x)
    for x, (ps, cs) in st.items():
        if len(ps) != len(set(ps)) or len(cs) != len(set(cs)):
            raise Violation('dup', '%r: parents %s children %s' % (x, ps, cs))
        for p in ps:
            if p not in st:
                raise Violation('ghost', 'parent %r of %r is not in the tree'
                                % (p, x))
            if x not in st[p][1]:
                raise Violation('asym', '%r has parent %r which does not list '
                                'it as a child' % (x, p))
        for c in cs:
            if c not in st:
                raise Violation('ghost', 'child %r of %r is not in the tree'
                                % (c, x))
            if x not in st[c][0]:
                raise Violation('asym', '%r has child %r which does not list '
                                'it as a parent' % (x, c))
        if (x in root) != (not ps):
            raise Violation('top', '%r has parents %s and is%s at the top '
                            'level' % (x, ps, '' if x in root else ' not'))
        if not deep:
            continue
        n = t.get_node(x)
        # the other ways to ask the same
        if bool(n.has_parent()) != bool(ps) or bool(n.has_child()) != bool(cs):
            raise Violation('ask', 'has_parent/has_child of %r' % x)
        if n.get_n_children() != len(cs):
            raise Violation('ask', 'get_n_children of %r: %s, not %d' % (
                x, n.get_n_children(), len(cs)))
        for y in st:
            if bool(n.has_parent(y)) != (y in ps) or \
                    bool(n.has_child(y)) != (y in cs):
                raise Violation('ask', 'has_parent/has_child(%r) of %r' % (
                    y, x))
        if not t.has_node(x) or t.get_node(x).get_id() != x:
            raise Violation('ask', 'has_node/get_node of %r' % x)
    # acyclic: peel off
    left = {x: set(ps) for x, (ps, cs) in st.items()}
    while left:
        free = [x for x, ps in left.items() if not (ps & set(left))]
        if not free:
            raise Violation('cycle', 'cycle among %s' % sorted(left))
        for x in free:
            del left[x]
    mv = t.get_main_view()
    for x in st:
        n = t.get_node(x)
        scribble(n.get_parents(), len(st))
        scribble(n.get_children(), len(st))
    scribble(mv.get_root().get_children(), len(st))
    scribble(mv.get_all_nodes(), len(st))
    scribble(mv.get_nodes(), len(st))
    return root, st


def multi_parent(m):
    return any(len(n.parents) > 1 for n in m.nodes.values())


class TreeWorld(World):
    """ accepting a cycle is for the caller to judge """
    def accepted_cycle(self):
        raise Violation('cycle', '%s was not refused' % (self.last,))


class C01(Check):
    id = 'C01'
    quick, thorough = 30000, 400000
    rule = ('random histories of 1-60 structural operations over 2-24 ids on '
            'an initial shape (random DAG, chain, star, ladder, many parents);'
            ' non-trivial: some node had two or more parents, and a delete, '
            'move or removed parent took effect')
    assumptions = ['ids are strings other than the root ids of the tree and '
                   'its views', 'one thread']
    weights = gen.weights(gen.STRUCT, gen.PRE, gen.EN)

    def gen(self, rng, tier):
        return gen.history(rng, self.weights, filters=None,
                           nviews=(0, 1), prefilter=False)

    def run(self, case, info):
        w = TreeWorld(case['cfg'])
        info['stats'] = w.stats
        multi = cut = False
        for i, op in enumerate(case['ops']):
            r = w.step(op)
            if self.due(case, i):
                integrity(w.t)
            multi = multi or multi_parent(w.m)
            if r == 'ok' and op[0] in ('del', 'move', 'setpar', 'rempar'):
                cut = True
        info['nontrivial'] = multi and cut


class C02(Check):
    id = 'C02'
    quick, thorough = 36000, 400000
    rule = ('as C01, compared with the reference model after every operation: '
            'node set, parents, children and top level, in order; '
            'non-trivial: at least four operations took effect, one of them a '
            'delete or a move')
    assumptions = C01.assumptions
    weights = gen.weights(gen.STRUCT, gen.PRE, gen.EN, enp=1, enc=1, refall=1,
                          mod=1)

    def gen(self, rng, tier):
        return gen.history(rng, self.weights, filters=None,
                           nviews=(0, 1), prefilter=False)

    def compare(self, w, op):
        root, st = real_state(w.t)
        mroot, mst = w.m.state()
        if set(st) != set(mst):
            raise Violation('nodes', 'after %s: nodes %s instead of %s' % (
                op, sorted(st), sorted(mst)))
        for x in mst:
            if st[x][0] != mst[x][0] or st[x][1] != mst[x][1]:
                raise Violation(
                    'relations', 'after %s: %r has parents %s children %s '
                    'instead of %s %s' % (op, x, st[x][0], st[x][1],
                                          mst[x][0], mst[x][1]))
        if root != mroot:
            raise Violation('top', 'after %s: top level %s instead of %s' % (
                op, root, mroot))
        for x in list(mst) + [op[1] if len(op) > 1 else 'none']:
            if not isinstance(x, str):
                continue
            if bool(w.t.has_node(x)) != (x in mst):
                raise Violation('has_node', '%r' % x)
            if x not in mst:
                try:
                    w.t.get_node(x)
                except ValueError:
                    pass
                else:
                    raise Violation('get_node', 'unknown %r was found' % x)

    def run(self, case, info):
        w = TreeWorld(case['cfg'])
        info['stats'] = w.stats
        n = 0
        cut = False
        objs = {}
        fresh = set()
        for i, op in enumerate(case['ops']):
            w.ret = None
            had = w.t.has_node(op[1]) if len(op) > 1 else None
            r = w.step(op)
            if op[0] == 'add' and not had:
                fresh.add(op[1])
            if op[0] == 'move' and r in ('ok', 'noop') and \
                    bool(w.ret) != bool(had):
                raise Violation('return', 'move_node returned %r' % (w.ret,))
            if op[0] == 'addpar' and not had and r != 'skip' and w.ret:
                raise Violation('return', 'add_parent of an unknown node '
                                'returned %r' % (w.ret,))
            if r == 'ok':
                n += 1
                cut = cut or op[0] in ('del', 'move', 'setpar')
            if not self.due(case, i):
                continue
            self.compare(w, op)
            # the node object in the tree stays the one which was added
            for x in w.t.get_main_view().get_all_nodes():
                o = w.t.get_node(x)
                if x in objs and objs[x] is not o and x not in fresh:
                    raise Violation('object', '%r was replaced' % x)
                objs[x] = o
            fresh.clear()
            for x in list(objs):
                if not w.t.has_node(x):
                    del objs[x]
        info['nontrivial'] = n >= 4 and cut


def view_state(v):
    """ everything a view shows, in order """
    out = []

    def walk(x, d):
        for c in v.node_all_children(x):
            out.append((d, c))
            if len(out) > 5000:
                raise Violation('endless', 'view does not end')
            walk(c, d + 1)
    walk(None, 0)
    return out


def snapshot(w):
    return (real_state(w.t), [view_state(vs.obj) for vs in w.views],
            [sorted(m.rows) for vs in w.views for m in vs.mirrors],
            [sorted(vs.obj.get_all_nodes()) for vs in w.views])


class C03(Check):
    id = 'C03'
    quick, thorough = 25000, 300000
    rule = ('histories biased to relations between a node and its own '
            'descendants (add_parent, add_child, move, set_parent, add with a '
            'parent below a pending child); the reference model decides by '
            'reachability which are cycles; complete state of tree, filtered '
            'views and listener mirrors compared around each refusal; '
            'non-trivial: a refusal happened and later operations took effect')
    assumptions = C01.assumptions
    weights = gen.weights(gen.STRUCT, gen.PRE, gen.DATA, data=3, enc=1, enp=1)

    def gen(self, rng, tier):
        if rng.random() < 0.01:
            # many shared parents: the number of paths is exponential
            ops = []
            for _ in range(rng.randint(1, 12)):
                ops.append([rng.choice(['addpar', 'addch', 'move', 'rempar']),
                            rng.random(), rng.random()])
            return {'cfg': {'ladder': [rng.randint(2, 32),
                                       rng.randint(1, 3)]}, 'ops': ops}
        g = gen.Gen(rng)
        g.filters = gen.pick_filters(rng, 'both', ids=g.ids)
        nv = rng.randint(0, 2)
        g.views = [{} for _ in range(nv)]
        g.build()
        for i in range(nv):
            if rng.random() < 0.5:
                g.emit('apply', i, rng.choice(g.filters)[0], None, False)
        for _ in range(g.length()):
            if rng.random() < 0.5 and g.m.nodes:
                x = rng.choice(list(g.m.nodes))
                below = sorted(g.m.below(x))
                y = rng.choice(below)
                k = rng.choice(['addpar', 'nodeaddpar', 'addch', 'move',
                                'setpar', 'pend'])
                if k == 'addch':
                    g.emit('addch', y, x)
                elif k == 'pend':
                    new = g.missing()
                    g.emit('new', new, None)
                    g.emit('addch', new, x)
                    if rng.random() < 0.5:
                        g.emit('addch', new, g.have())
                    g.emit('add', new, y if rng.random() < 0.8 else new,
                           g.colors(), g.val())
                else:
                    g.emit(k, x, y)
            else:
                g.run(self.weights, 1)
        return {'cfg': {'filters': g.filters, 'views': g.views},
                'ops': g.ops}

    def ladder(self, case, info):
        from liblarch import Tree
        from model import Refused
        from world import unexpected
        depth, width = case['cfg']['ladder']
        stats = info['stats'] = {'ladder': 1}
        t, m = Tree(), Model()
        for d in range(depth):
            for k in range(width):
                x = 'l%d.%d' % (d, k)
                t.add_node(Nd(x))
                m.add(x)
                for j in range(width if d else 0):
                    p = 'l%d.%d' % (d - 1, j)
                    t.add_parent(x, p)
                    m.add_parent(x, p)
        ids = sorted(m.nodes)
        refused = 0
        for op in case['ops']:
            k, a, b = op
            x, y = (ids[int(z * len(ids))] for z in (a, b))
            before = m.copy()
            n = t.get_node(x)
            try:
                if k == 'addpar':
                    m.add_parent(x, y)
                elif k == 'addch':
                    m.add_child(x, y)
                elif k == 'move':
                    m.move(x, y)
                else:
                    m.remove_parent(x, y)
                bad = False
            except Refused:
                bad, m = True, before
                refused += 1
            try:
                if k == 'addpar':
                    n.add_parent(y)
                elif k == 'addch':
                    n.add_child(y)
                elif k == 'move':
                    t.move_node(x, y)
                else:
                    n.remove_parent(y)
            except Exception as e:
                if not bad:
                    raise unexpected(e, op)
            else:
                if bad:
                    raise Violation('cycle', '%s was not refused' % op)
            if real_state(t) != m.state():
                raise Violation('relations', 'after %s: %s instead of %s' % (
                    op, real_state(t), m.state()))
        stats['refusals'] = refused
        info['nontrivial'] = bool(refused)

    def run(self, case, info):
        if 'ladder' in case['cfg']:
            return self.ladder(case, info)
        w = TreeWorld(case['cfg'])
        info['stats'] = w.stats
        refused = after = 0
        for op in case['ops']:
            before = snapshot(w)
            hist = [dict(m.n) for vs in w.views for m in vs.mirrors]
            r = w.step(op)
            if r == 'refused':
                refused += 1
                if snapshot(w) != before:
                    raise Violation('not-atomic', 'the refused %s changed %s '
                                    'into %s' % (op, before, snapshot(w)))
                now = [dict(m.n) for vs in w.views for m in vs.mirrors]
                for a, b in zip(hist, now):
                    if (a['added'], a['deleted']) != (b['added'],
                                                      b['deleted']):
                        raise Violation('not-atomic', 'the refused %s '
                                        'notified additions or deletions' %
                                        (op,))
            elif r == 'ok' and refused:
                after += 1
        integrity(w.t, deep=False)
        C02.compare(self, w, ['end'])
        info['nontrivial'] = bool(refused and after)
        w.bump('refusals', refused)


class C04(Check):
    id = 'C04'
    quick, thorough = 80000, 400000
    rule = ('a random acyclic relation graph over 2-40 nodes, every relation '
            'declared once or several times by a random end and route '
            '(constructor parent, add_parent or add_child on the object '
            'before or after insertion, parent given on insertion), random '
            'insertion order, deletions and re-additions in between; oracle: '
            'the declared graph restricted to present nodes; every fifth case '
            'declares relations which may conflict (cycles) and is compared '
            'with the reference model; non-trivial: at '
            'least two relations were declared while an end was missing')
    assumptions = C01.assumptions

    def conflicts(self, rng):
        g = gen.Gen(rng, rng.choice([3, 3, 4, 4, 5, 6, 8]))
        for _ in range(rng.randint(3, 24)):
            kind = rng.choices(['add', 'new', 'preadd', 'addpar', 'addch',
                                'nodeaddpar', 'setpar', 'del', 'move',
                                'rempar'],
                               [8, 4, 8, 4, 4, 2, 3, 2, 1, 3])[0]
            if kind == 'add':
                g.emit('add', g.missing(),
                       g.any() if rng.random() < 0.4 else None, '', 0)
            elif kind in ('new', 'preadd'):
                g.op(kind)
            elif kind == 'del':
                g.emit('del', g.any(), rng.random() < 0.3)
            elif kind == 'move' and rng.random() < 0.5:
                g.emit('move', g.have(), None)
            elif kind == 'rempar':
                g.op(kind)
            else:
                g.emit(kind, g.have(), g.any())
        return {'cfg': {'conflicts': True}, 'ops': g.ops}

    def gen(self, rng, tier):
        if rng.random() < 0.2:
            return self.conflicts(rng)
        n = rng.choice([2, 3, 3, 4, 4, 5, 5, 6, 7, 9, 14])
        if rng.random() < gen.LARGE:
            n = rng.randint(20, 40)
        ids = gen.pick_ids(rng, n)
        topo = ids[:]
        rng.shuffle(topo)
        p = rng.choice([0.15, 0.3, 0.5, 0.8]) if n <= 6 else 0.2 if n < 20 else 0.06
        edges = [[topo[i], topo[j]] for j in range(n) for i in range(j)
                 if rng.random() < p]
        order = ids[:]
        rng.shuffle(order)
        ops = []
        # items: insertions in order, declarations at a random moment
        decl = []
        for e in edges:
            for _ in range(rng.choice([1, 1, 1, 1, 2])):
                decl.append([rng.choice(['ctor', 'addpar', 'addpar', 'addch',
                                         'addch', 'insert', 'setpar']), e])
        slots = [[] for _ in range(n + 1)]
        for d in decl:
            slots[rng.randint(0, n)].append(d)
        dels = []
        for i, x in enumerate(order):
            for d in slots[i]:
                ops.append(['decl', d[0], d[1][0], d[1][1]])
            ops.append(['insert', x])
            if rng.random() < 0.12:
                ops.append(['del', rng.choice(order[:i + 1]),
                            rng.random() < 0.3])
            if rng.random() < 0.1:
                ops.append(['insert', rng.choice(ids)])
        for d in slots[n]:
            ops.append(['decl', d[0], d[1][0], d[1][1]])
        for _ in range(rng.choice([0, 0, 1, 3])):
            r = rng.random()
            if r < 0.4:
                ops.append(['del', rng.choice(ids), rng.random() < 0.3])
            elif r < 0.8:
                ops.append(['insert', rng.choice(ids)])
            elif edges:
                e = rng.choice(edges)
                ops.append(['decl', rng.choice(['addpar', 'addch']),
                            e[0], e[1]])
        return {'cfg': {'edges': edges}, 'ops': ops}

    def run_model(self, case, info):
        w = TreeWorld({'views': []})
        info['stats'] = w.stats
        early = 0
        for op in case['ops']:
            n = len(w.m.pending) + sum(
                len(l.pending) for l in w.m.loose.values())
            w.step(op)
            early += len(w.m.pending) + sum(
                len(l.pending) for l in w.m.loose.values()) > n
            C02.compare(self, w, op)
        info['nontrivial'] = early >= 2
        w.stats['declared_early'] = early
        w.bump('conflicts')

    def run(self, case, info):
        from liblarch import Tree
        from world import unexpected, NULL
        import sys
        if case['cfg'].get('conflicts'):
            return self.run_model(case, info)
        t = Tree()
        objs = {}
        present = set()
        active = set()     # relations which hold or wait for an end
        held = {}          # declared on objects outside the tree
        ins_parent = {}
        pend = 0
        stats = info['stats'] = {}

        def act(f):
            try:
                return f()
            except Exception as e:
                raise unexpected(e, op)

        for op in case['ops']:
            k = op[0]
            stats[k] = stats.get(k, 0) + 1
            if k == 'decl':
                how, p, c = op[1:]
                missing = [x for x in (p, c) if x not in present]
                if how == 'ctor':
                    if c in objs or c in present:
                        continue
                    objs[c] = act(lambda: Nd(c, '', 0, p))
                elif how == 'insert':
                    if c in present or c in ins_parent:
                        continue
                    ins_parent[c] = p
                    continue
                elif how == 'addpar':
                    if c in present:
                        act(lambda: t.get_node(c).add_parent(p))
                    else:
                        objs.setdefault(c, Nd(c))
                        act(lambda: objs[c].add_parent(p))
                elif how == 'setpar':
                    # on an object outside any tree this declares a parent
                    if c in present or c in objs:
                        continue
                    objs[c] = Nd(c)
                    act(lambda: objs[c].set_parent(p))
                else:
                    if p in present:
                        act(lambda: t.get_node(p).add_child(c))
                    else:
                        objs.setdefault(p, Nd(p))
                        act(lambda: objs[p].add_child(c))
                if missing:
                    pend += 1
                owner = p if how == 'addch' else c
                if owner in present:
                    active.add((p, c))
                else:
                    held.setdefault(owner, set()).add((p, c))
            elif k == 'insert':
                x = op[1]
                if x in present:
                    continue
                o = objs.pop(x, None) or Nd(x)
                p = ins_parent.pop(x, None)
                if p is not None and p not in present:
                    pend += 1
                act(lambda: t.add_node(o, parent_id=p))
                present.add(x)
                active |= held.pop(x, set())
                if p is not None:
                    active.add((p, x))
            elif k == 'del':
                x = op[1]
                if x not in present:
                    continue
                gone, stack = set(), [x]
                while stack:
                    y = stack.pop()
                    gone.add(y)
                    if op[2]:
                        stack += [c for p, c in active if p == y and
                                  c in present and c not in gone]
                act(lambda: t.del_node(x, recursive=op[2]))
                present -= gone
                # forgotten: every relation which named it in the tree (not
                # those declared on an object still outside the tree)
                active = {(p, c) for p, c in active
                          if p not in gone and c not in gone}
            self.judge(t, present, active, op)
        info['nontrivial'] = pend >= 2
        stats['declared_early'] = pend

    def judge(self, t, present, active, op):
        root, st = real_state(t)
        if set(st) != present:
            raise Violation('nodes', 'after %s: %s instead of %s' % (
                op, sorted(st), sorted(present)))
        for x in present:
            ps = {p for p, c in active if c == x and p in present}
            cs = {c for p, c in active if p == x and c in present}
            if sorted(st[x][0]) != sorted(ps) or sorted(st[x][1]) != sorted(cs):
                raise Violation(
                    'relations', 'after %s: %r has parents %s children %s, '
                    'declared %s %s' % (op, x, st[x][0], st[x][1],
                                        sorted(ps), sorted(cs)))
            if (x in root) != (not ps) or root.count(x) > 1:
                raise Violation('top', 'after %s: %r' % (op, x))


class C05(Check):
    id = 'C05'
    quick, thorough = 40000, 300000
    rule = ('histories with many enable/disable switches, on nodes inside '
            'and outside the tree, and every route to a relation; checked '
            'after each operation against the switches and the reference '
            'model; every tenth history requests relations from another '
            'thread and turns switches before the main loop carries them '
            'out; non-trivial: an existing relation was cut by a switch and '
            'a later relation was attempted on a disabled node, or a switch '
            'was turned off while a request was waiting')
    assumptions = C01.assumptions
    weights = gen.weights(gen.STRUCT, gen.PRE, enp=10, enc=10, preadd=6)
    queued = gen.weights(addp=6, move=8, setpar=4, addpar=10, nodeaddpar=4,
                         addch=8, new=2, preadd=2)

    def gen(self, rng, tier):
        if rng.random() < 0.9:
            return gen.history(rng, self.weights, filters=None,
                               nviews=(0, 1), prefilter=False,
                               size=rng.choice([2, 3, 4, 5, 6, 8]))
        # relations requested by another thread, switches turned before they
        # are carried out
        g = gen.Gen(rng, size=rng.choice([2, 3, 4, 5, 6]))
        g.build()
        kinds = sorted(self.queued)
        for _ in range(rng.randint(2, 14)):
            r = rng.random()
            if r < 0.55:
                keep = g.m
                n = len(g.ops)
                g.op(rng.choices(kinds, [self.queued[k] for k in kinds])[0])
                for op in g.ops[n:]:
                    if op[0] != 'new':
                        g.m = keep
                g.ops[n:] = [op if op[0] == 'new' else ['later', op]
                             for op in g.ops[n:]]
            elif r < 0.85:
                g.op(rng.choice(['enp', 'enc']))
            else:
                g.emit('settle')
        return {'cfg': {'filters': [], 'views': []}, 'ops': g.ops,
                'queued': True}

    def run_queued(self, case, info):
        from gi.repository import GLib
        import threading
        ctx = GLib.MainContext.default()
        w = TreeWorld(case['cfg'])
        t, objs = w.t, {}
        off = {'enp': {}, 'enc': {}}
        info['stats'] = stats = {}
        waiting = turned = 0

        def node(x):
            return t.get_node(x) if t.has_node(x) else objs.get(x)

        def do(op):
            k, a = op[0], op[1:]
            stats[k] = stats.get(k, 0) + 1
            if k == 'new':
                if node(a[0]) is None:
                    objs[a[0]] = Nd(a[0], '', 0, a[1])
            elif k == 'add':
                if not t.has_node(a[0]):
                    o = objs.setdefault(a[0], Nd(a[0]))
                    t.add_node(o, a[1])
            elif k in ('move', 'setpar', 'addpar', 'nodeaddpar', 'addch'):
                n, p = node(a[0]), a[1]
                if n is None or p is None:
                    return
                if n.get_tree() is not None and not t.has_node(a[0]):
                    return
                if k in ('move', 'setpar'):
                    n.set_parent(p)
                elif k == 'addch':
                    n.add_child(p)
                else:
                    n.add_parent(p)

        def call(op):
            try:
                do(op)
            except Exception:       # refused: not judged here
                pass

        def judge(op):
            st = real_state(t)[1]
            for x in st:
                n = t.get_node(x)
                if off['enp'].get(x) and (
                        n.has_parent() or st[x][0] or
                        any(x in st[y][1] for y in st)):
                    raise Violation('parent', 'after %s: %r with parents '
                                    'disabled is below %s' % (
                                        op, x, [y for y in st
                                                if x in st[y][1]]))
                if off['enc'].get(x) and (
                        n.has_child() or n.get_n_children() or st[x][1] or
                        any(x in st[y][0] for y in st)):
                    raise Violation('child', 'after %s: %r with children '
                                    'disabled has the child %s' % (
                                        op, x, [y for y in st
                                                if x in st[y][0]]))

        def settle():
            for _ in range(5000):
                if not ctx.iteration(False):
                    return
        out, sys.stdout = sys.stdout, NULL
        err, sys.stderr = sys.stderr, NULL
        try:
            settle()
            for op in case['ops'] + [['settle']]:
                if op[0] == 'later':
                    th = threading.Thread(target=call, args=(op[1],))
                    th.start()
                    th.join()
                    waiting += 1
                elif op[0] == 'settle':
                    settle()
                    waiting = 0
                elif op[0] in off:
                    n = node(op[1])
                    if n is None:
                        continue
                    if op[0] == 'enp':
                        n.set_parents_enabled(op[2])
                    else:
                        n.set_children_enabled(op[2])
                    off[op[0]][op[1]] = not op[2]
                    if waiting and not op[2]:
                        turned += 1
                else:
                    call(op)
                judge(op)
        finally:
            settle()
            sys.stdout, sys.stderr = out, err
        info['nontrivial'] = bool(turned)

    def run(self, case, info):
        if case.get('queued'):
            return self.run_queued(case, info)
        w = TreeWorld(case['cfg'])
        info['stats'] = w.stats
        cut = tried = 0
        for op in case['ops']:
            before = real_state(w.t)[1]
            r = w.step(op)
            root, st = real_state(w.t)
            for x, (ps, cs) in st.items():
                n = w.t.get_node(x)
                mn = w.m.nodes.get(x)
                if mn is None:
                    continue
                if bool(n.has_parents_enabled()) != mn.pe or \
                        bool(n.has_children_enabled()) != mn.ce:
                    raise Violation('switch', 'switches of %r read %s %s' % (
                        x, n.has_parents_enabled(), n.has_children_enabled()))
                if not mn.pe and (ps or n.has_parent() or any(
                        x in st[y][1] for y in st)):
                    raise Violation('parent', 'after %s: %r with parents '
                                    'disabled has %s' % (op, x, ps))
                if not mn.ce and (cs or n.has_child() or n.get_n_children() or
                                  any(x in st[y][0] for y in st)):
                    raise Violation('child', 'after %s: %r with children '
                                    'disabled has %s' % (op, x, cs))
            C02.compare(self, w, op)
            if op[0] in ('enp', 'enc') and r == 'ok' and not op[2]:
                old = before.get(op[1])
                if old and old[0 if op[0] == 'enp' else 1]:
                    cut += 1
            if r == 'noop' and op[0] in ('addpar', 'addch', 'move', 'setpar',
                                         'nodeaddpar'):
                tried += 1
        info['nontrivial'] = bool(cut and tried)


class C24(Check):
    id = 'C24'
    quick, thorough = 35000, 300000
    rule = ('histories of structural and refresh operations with main-view '
            'listeners registered before and during them; notified additions '
            'and deletions compared with the difference of the node sets, '
            'presence checked inside each notification, and a modified '
            'notification required for refreshed nodes and for existing nodes '
            'whose relations changed; non-trivial: an addition, a deletion '
            'and a modification were notified')
    assumptions = C01.assumptions
    weights = gen.weights(gen.STRUCT, gen.PRE, gen.EN, gen.DATA, data=4,
                          listen=2)

    def gen(self, rng, tier):
        w = dict(self.weights)
        w.pop('listen')
        c = gen.history(rng, w, filters=None, nviews=(0, 1), prefilter=False)
        for _ in range(rng.choice([0, 1, 1, 2])):
            c['ops'].insert(rng.randint(0, len(c['ops'])), ['listen'])
        return c

    def run(self, case, info):
        w = TreeWorld(case['cfg'])
        info['stats'] = w.stats
        logs = []
        errors = []

        def listen():
            log = []
            logs.append(log)
            mv = w.t.get_main_view()

            def cb(ev):
                def f(nid, path=None):
                    log.append((ev, nid))
                    here = bool(w.t.has_node(nid))
                    if ev == 'deleted' and here:
                        errors.append('%r still there when announced as '
                                      'deleted' % nid)
                    if ev == 'modified' and not here:
                        errors.append('%r announced as modified is not in '
                                      'the tree' % nid)
                    if ev == 'added':
                        if not here or nid not in mv.get_all_nodes():
                            errors.append('%r not there when announced as '
                                          'added' % nid)
                        elif w.t.get_node(nid).get_id() != nid:
                            errors.append('get_node(%r)' % nid)
                return f
            for ev in ('added', 'deleted', 'modified'):
                mv.register_cllbck('node-' + ev, cb(ev))
        listen()
        kinds = set()
        for op in case['ops']:
            if op[0] == 'listen':
                if len(logs) < 4:
                    listen()
                continue
            for l in logs:
                del l[:]
            _, before = real_state(w.t)
            r = w.step(op)
            _, after = real_state(w.t)
            if errors:
                raise Violation('presence', 'during %s: %s' % (op, errors[0]))
            for l in logs:
                add = sorted(x for e, x in l if e == 'added')
                dele = sorted(x for e, x in l if e == 'deleted')
                mod = {x for e, x in l if e == 'modified'}
                if add != sorted(set(after) - set(before)):
                    raise Violation('added', '%s announced %s added instead '
                                    'of %s' % (op, add, sorted(
                                        set(after) - set(before))))
                if dele != sorted(set(before) - set(after)):
                    raise Violation('deleted', '%s announced %s deleted '
                                    'instead of %s' % (op, dele, sorted(
                                        set(before) - set(after))))
                need = set()
                if op[0] in ('mod', 'data') and op[1] in after:
                    need.add(op[1])
                if op[0] == 'refall' or (op[0] == 'data' and op[4] == 3 and
                                         r == 'ok'):
                    need |= set(after)
                if op[0] not in ('add', 'new'):
                    for x in after:
                        if x in before and (
                                set(after[x][0]) != set(before[x][0]) or
                                set(after[x][1]) != set(before[x][1])):
                            need.add(x)
                if need - mod:
                    raise Violation('modified', '%s did not announce the '
                                    'change of %s' % (op, sorted(need - mod)))
                for e, x in l:
                    kinds.add(e)
        info['nontrivial'] = len(kinds) == 3
