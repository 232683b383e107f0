"""C06-C13, C15, C16: filtered views."""
import gen
from checks import Check
from checks_tree import lst, real_state, scribble, view_state
from world import Mirror, Violation, World, verdict

ASSUME = ['ids are strings other than the root ids of the tree and its views',
          'a filter decides on the node, its children and descendants (not on '
          'ancestors, siblings or outside state), and data changes are '
          'followed by a refresh request',
          'one thread; listeners do not change the tree',
          'a filter changed in the bank takes effect in a view when that view '
          'is next refreshed']
HIST = gen.weights(gen.STRUCT, gen.PRE, gen.DATA, gen.FILT)
SHAPE = ('histories of 1-60 structural, data and filter operations over 2-24 '
         'ids, 1-3 views, 2-5 filters (own data, children, descendants; flat '
         'and negated), starting from a generated hierarchy')


def displayed(v):
    d = lst(v.get_all_nodes(), 'get_all_nodes')
    if len(d) != len(set(d)):
        raise Violation('dup', 'get_all_nodes lists %s' % d)
    return d


def check_members(w, vs, every):
    exp = w.expected(vs.applied)
    got = set(displayed(vs.obj))
    if got != exp:
        raise Violation('members', 'after %s: view with %s shows %s, '
                        'missing %s' % (w.last, vs.applied,
                                        sorted(got - exp) + ['wrongly'],
                                        sorted(exp - got)))
    for x in set(every) | got:
        if bool(vs.obj.is_displayed(x)) != (x in exp):
            raise Violation('is_displayed', '%r' % x)
    if vs.obj.get_n_nodes() != len(exp):
        raise Violation('count', 'get_n_nodes %s, not %d' % (
            vs.obj.get_n_nodes(), len(exp)))
    if sorted(vs.obj.get_nodes()) != sorted(exp):
        raise Violation('count', 'get_nodes %s' % vs.obj.get_nodes())
    return exp


def check_shape(w, vs):
    """ links between what is displayed, against the real hierarchy """
    v = vs.obj
    shown = set(displayed(v))
    in_tree = {x for x in shown if w.t.has_node(x)}
    links = w.expected_links(vs.applied, in_tree)
    top = lst(v.node_all_children(), 'node_all_children')
    if len(top) != len(set(top)):
        raise Violation('dup', 'after %s: top level %s' % (w.last, top))
    exp_top = {x for x in in_tree if not links[x]}
    if set(top) != exp_top:
        raise Violation('top', 'after %s: top level %s instead of %s' % (
            w.last, sorted(top), sorted(exp_top)))
    for x in in_tree:
        ps = lst(v.node_parents(x), 'node_parents')
        cs = lst(v.node_all_children(x), 'node_all_children')
        if len(ps) != len(set(ps)) or set(ps) != links[x]:
            raise Violation('parents', 'after %s: %r is below %s instead of '
                            '%s' % (w.last, x, ps, sorted(links[x])))
        exp = {c for c in in_tree if x in links[c]}
        if len(cs) != len(set(cs)) or set(cs) != exp:
            raise Violation('children', 'after %s: %r has children %s instead '
                            'of %s' % (w.last, x, cs, sorted(exp)))
        if v.node_n_children(x) != len(exp) or \
                bool(v.node_has_child(x)) != bool(exp) or \
                bool(v.node_has_parent(x)) != bool(links[x]):
            raise Violation('ask', 'counts of %r' % x)
    if v.node_n_children() != len(exp_top):
        raise Violation('ask', 'number of top-level nodes')
    return shown


def chains(v, limit=5000):
    """ all paths of a view, from children queries """
    out = []
    stack = [((c,)) for c in v.node_all_children()]
    while stack:
        p = stack.pop()
        out.append(p)
        if len(out) > limit:
            raise Violation('endless', 'more than %d paths' % limit)
        for c in v.node_all_children(p[-1]):
            stack.append(p + (c,))
    return out


class ViewCheck(Check):
    weights = HIST
    filters = 'both'
    assumptions = ASSUME

    def gen(self, rng, tier):
        return gen.history(rng, self.weights, filters=self.filters)

    def world(self, case):
        return World(case['cfg'], mirrors=False)

    def run(self, case, info):
        w = self.world(case)
        info['stats'] = w.stats
        self.begin(w)
        for i, op in enumerate(case['ops']):
            self.before(w, op)
            r = w.step(op)
            if self.due(case, i):
                self.after(w, op, r)
        info['nontrivial'] = self.end(w)

    def begin(self, w):
        pass

    def before(self, w, op):
        pass


class C06(ViewCheck):
    id = 'C06'
    quick, thorough = 16000, 300000
    rule = SHAPE + ('; displayed sets compared after every operation with the '
                    'filters evaluated on every node; non-trivial: some view '
                    'both showed and hid nodes, and a node changed between '
                    'shown and hidden by a data or structural operation')
    weights = gen.weights(HIST, view=1, multi=1, enp=1, enc=1, remf=0.3,
                          addf=0.5)

    def begin(self, w):
        self.part = self.flip = False
        self.prev = {}

    def after(self, w, op, r):
        every = w.t.get_main_view().get_all_nodes()
        for vs in w.views:
            exp = check_members(w, vs, every)
            if exp and len(exp) < len(every):
                self.part = True
            old = self.prev.get(id(vs))
            if old is not None and op[0] in ('data', 'move', 'addpar',
                                             'rempar', 'del', 'addch'):
                if (old ^ exp) & set(every) & self.had:
                    self.flip = True
            self.prev[id(vs)] = exp
        self.had = set(every)

    def end(self, w):
        return self.part and self.flip


class C07(ViewCheck):
    id = 'C07'
    quick, thorough = 16000, 300000
    rule = SHAPE + ('; parents, children and top level of every displayed '
                    'node compared after every operation with the displayed '
                    'part of the hierarchy; non-trivial: a displayed node '
                    'below a hidden parent, and a displayed node with two '
                    'displayed parents')
    weights = gen.weights(HIST, view=1, multi=1, enp=1, enc=1)

    def begin(self, w):
        self.hid = self.two = False

    def after(self, w, op, r):
        for vs in w.views:
            shown = check_shape(w, vs)
            for x in shown:
                ps = w.t.get_node(x).get_parents() if w.t.has_node(x) else []
                k = sum(p in shown for p in ps)
                self.hid = self.hid or (k < len(ps))
                self.two = self.two or k >= 2

    def end(self, w):
        return self.hid and self.two


class C08(ViewCheck):
    id = 'C08'
    quick, thorough = 16000, 250000
    rule = SHAPE + ('; two listeners per view replay the notifications into '
                    'row sets, more join later through the current-state '
                    'request; rows compared after every operation with the '
                    'paths of the view; non-trivial: additions, deletions and '
                    'modifications were notified and some node had two paths')
    weights = gen.weights(HIST, view=1, multi=0.5, late=1.5)

    def gen(self, rng, tier):
        w = dict(self.weights)
        w.pop('late')
        c = gen.history(rng, w, filters='both')
        for _ in range(rng.choice([0, 0, 1, 2])):
            c['ops'].insert(rng.randint(0, len(c['ops'])),
                            ['late', rng.randint(0, 2)])
        return c

    def run(self, case, info):
        w = World(case['cfg'], mirrors=True)
        info['stats'] = w.stats
        two = False
        for i, op in enumerate(case['ops']):
            if op[0] == 'late':
                vs = w.view(op[1])
                if vs is None or len(vs.mirrors) > 3:
                    continue
                # everybody else must start over with the current state
                for m in vs.mirrors:
                    m.rows.clear()
                m = Mirror(w, vs.obj)
                m.connect()
                vs.mirrors.append(m)
                w.last = op
                w.real(vs.obj.get_current_state)
                w.bump('late')
            else:
                w.step(op)
            if not self.due(case, i):
                continue
            for vs in w.views:
                paths = set(chains(vs.obj))
                if set(p[-1] for p in paths) != set(displayed(vs.obj)):
                    raise Violation('paths', 'displayed nodes without a path')
                for x in displayed(vs.obj):
                    ps = lst(vs.obj.get_paths_for_node(x), 'paths')
                    if len(ps) != len(set(ps)) or set(ps) != {
                            p for p in paths if p[-1] == x}:
                        raise Violation('paths', 'after %s: %r has paths %s' %
                                        (op, x, ps))
                    two = two or len(ps) > 1
                for m in vs.mirrors:
                    if m.error:
                        raise Violation(m.error[0], 'during %s: %s' % (
                            op, m.error[1]))
                    if set(m.rows) != paths:
                        raise Violation(
                            'rows', 'after %s: listener holds %s, view %s' % (
                                op, sorted(set(m.rows) - paths),
                                sorted(paths - set(m.rows))))
        n = {}
        for vs in w.views:
            for m in vs.mirrors:
                for k, v in m.n.items():
                    n[k] = n.get(k, 0) + v
        for k, v in n.items():
            w.bump('event_' + k, v)
        info['nontrivial'] = bool(two and all(n.values()) and n)


def own_label(v, nid):
    n = v.get_node(nid)
    return ('own', frozenset(n.colors), n.val)


def full_label(v, nid):
    n = v.get_node(nid)
    return (frozenset(n.colors), n.val,
            v.node_n_children(nid, recursive=True),
            frozenset(v.node_all_children(nid)))


class C09(ViewCheck):
    id = 'C09'
    quick, thorough = 15000, 250000
    rule = SHAPE + ('; a listener caches for every row a label (own data, '
                    'displayed children, number of displayed descendants) '
                    'computed when the row was last notified; after every '
                    'operation each cached label is recomputed; non-trivial: '
                    'a displayed node with two paths had its label changed')
    weights = gen.weights(HIST, view=0.5)

    def world(self, case):
        return World(case['cfg'], mirrors=True, label=full_label)

    def begin(self, w):
        self.hit = False

    def before(self, w, op):
        for vs in w.views:
            for m in vs.mirrors:
                m.touched = set()
        self.old = [dict(m.rows) for vs in w.views for m in vs.mirrors]

    def after(self, w, op, r):
        for vs in w.views:
            for m in vs.mirrors:
                if m.error and m.error[0] == 'label':
                    raise Violation(*m.error)
                paths = {}
                for p in m.rows:
                    paths.setdefault(p[-1], []).append(p)
                for x in displayed(vs.obj):
                    now = full_label(vs.obj, x)
                    for p in vs.obj.get_paths_for_node(x):
                        if p not in m.rows:
                            raise Violation('never', 'after %s: %r was not '
                                            'notified' % (op, p))
                        if m.rows[p] != now:
                            raise Violation(
                                'stale', 'after %s: row %r last notified with '
                                '%s, now %s' % (op, p, m.rows[p], now))
                    if op[0] in ('data', 'mod') and r == 'ok' and x == op[1]:
                        missed = set(vs.obj.get_paths_for_node(x)) - m.touched
                        if missed:
                            raise Violation('refresh', '%s did not notify %s' %
                                            (op, sorted(missed)))
                    if len(paths.get(x, ())) > 1:
                        self.hit = True

    def end(self, w):
        return self.hit


def coherent(v, event, nid, path):
    """ queries a listener may make at any time; returns about how many
    answers were asked for """
    asked = 0
    shown = displayed(v)
    ss = set(shown)
    top = lst(v.node_all_children(), 'node_all_children')
    if len(top) != len(set(top)) or not set(top) <= ss:
        raise Violation('top', 'top level %s of %s' % (top, shown))
    par = {x: lst(v.node_parents(x), 'node_parents') for x in shown}
    kid = {x: lst(v.node_all_children(x), 'node_all_children') for x in shown}
    for x in shown:
        ps, cs = par[x], kid[x]
        for p in ps:
            if p not in ss or x not in kid[p]:
                raise Violation('link', '%r says it is below %r' % (x, p))
        for c in cs:
            if c not in ss or x not in par[c]:
                raise Violation('link', '%r says it is above %r' % (x, c))
        if len(ps) != len(set(ps)) or len(cs) != len(set(cs)):
            raise Violation('dup', '%r: %s %s' % (x, ps, cs))
        if not v.is_displayed(x):
            raise Violation('displayed', '%r' % x)
        ways = lst(v.get_paths_for_node(x), 'paths')
        asked += 1 + sum(len(p) for p in ways)
        for p in ways:
            if not p or p[-1] != x or p[0] not in top or any(
                    b not in kid[a] for a, b in zip(p, p[1:])):
                raise Violation('path', '%r has path %r' % (x, p))
        if v.node_n_children(x) != len(cs):
            raise Violation('count', '%r' % x)
    below = {}

    def size(x, depth=0):
        if x not in below:
            if depth > len(shown):
                raise Violation('link', '%r is below itself' % x)
            below[x] = sum(1 + size(c, depth + 1) for c in kid[x])
        return below[x]
    for x in shown:
        if kid[x]:
            asked += 1 + size(x) // 4
            if v.node_n_children(x, recursive=True) != size(x):
                raise Violation('count', '%r has %s below, not %s' % (
                    x, v.node_n_children(x, recursive=True), size(x)))
    if v.node_n_children(recursive=True) != sum(1 + size(x) for x in top):
        raise Violation('count', '%s below the top level, not %s' % (
            v.node_n_children(recursive=True), sum(1 + size(x) for x in top)))
    v.print_tree(True)
    if v.node_n_children() != len(top):
        raise Violation('count', 'the top level has %s, not %d' % (
            v.node_n_children(), len(top)))
    if v.get_n_nodes() != len(shown) or \
            sorted(v.get_nodes()) != sorted(shown):
        raise Violation('count', '%s (%s) of %s' % (
            v.get_nodes(), v.get_n_nodes(), shown))
    if event in ('added', 'modified'):
        if nid not in ss:
            raise Violation('absent', '%s %r is not displayed' % (event, nid))
        if path not in v.get_paths_for_node(nid):
            raise Violation('path', '%s %r at %r, but paths are %s' % (
                event, nid, path, v.get_paths_for_node(nid)))
        if v.get_node_for_path(path) != nid:
            raise Violation('path', '%r is %r' % (path,
                                                  v.get_node_for_path(path)))
        if v.get_node(nid).get_id() != nid:
            raise Violation('node', '%r' % nid)
    return asked


class C10(ViewCheck):
    id = 'C10'
    quick, thorough = 9000, 150000
    rule = SHAPE + ('; the whole view (paths, links, counts, printing) is '
                    'queried and cross-checked inside every notification; '
                    'non-trivial: at least ten notifications were delivered '
                    'while a node had several parents')
    weights = gen.weights(HIST, view=0.5)

    def run(self, case, info):
        bad = []
        count = [0]
        asked = [0, 0]
        from world import unexpected

        def hook(m, event, nid, path):
            if bad:
                return
            count[0] += 1
            # a wide view with hundreds of paths is not asked every time
            every = 1 if count[0] <= 150 else 9
            if asked[0] > 30000:
                every = 101
            if asked[0] > 150000 or count[0] % every:
                return
            try:
                # the other views and the whole tree as well
                asked[0] += coherent(m.v, event, nid, path)
                t = m.v.get_basetree()
                if t.has_node(nid):
                    t.get_node(nid)
            except Violation as e:
                bad.append((event, nid, path, e))
            except RecursionError as e:
                bad.append((event, nid, path, Violation('recursion', str(e))))
            except Exception as e:
                bad.append((event, nid, path, unexpected(e, 'a query')))
        w = World(case['cfg'], mirrors=True, hook=hook)
        info['stats'] = w.stats
        main = w.t.get_main_view()

        def seen(event):
            """ the main view is asked as well """
            def notified(nid, path=None):
                # a node which is being deleted is half there
                if bad or w.last[0] == 'del':
                    return
                asked[1] += 1
                if asked[1] > 60 and asked[1] % 13 or asked[0] > 150000:
                    return
                try:
                    asked[0] += coherent(main, None, nid, None)
                    if not main.is_displayed(nid):
                        raise Violation('absent', '%s %r is not there' % (
                            event, nid))
                except Violation as e:
                    bad.append((event, nid, None, e))
                except Exception as e:
                    bad.append((event, nid, None, unexpected(e, 'a query')))
            return notified
        for event in ('node-added', 'node-modified'):
            main.register_cllbck(event, seen(event))
        multi = 0
        for op in case['ops']:
            c0 = count[0]
            w.step(op)
            if bad:
                event, nid, path, e = bad[0]
                raise Violation(e.kind, 'inside the notification %s %r %r of '
                                '%s: %s' % (event, nid, path, op, e.msg))
            if any(len(n.parents) > 1 for n in w.m.nodes.values()):
                multi += count[0] - c0
        w.bump('notifications', count[0])
        info['nontrivial'] = multi >= 10


class C11(ViewCheck):
    id = 'C11'
    quick, thorough = 8000, 200000
    rule = SHAPE + ('; after every operation all paths of the main view and '
                    'of each filtered view are enumerated from the children '
                    'lists and compared with every path and navigation query, '
                    'plus generated wrong paths; non-trivial: a node with two '
                    'paths of length three or more')
    weights = gen.weights(HIST, view=0.5, enp=0.5, enc=0.5)

    def gen(self, rng, tier):
        c = gen.history(rng, self.weights, filters='both', nviews=(1, 2))
        c['cfg']['probe'] = rng.randrange(10 ** 6)
        return c

    def begin(self, w):
        import random
        self.rng = random.Random(w.cfg.get('probe', 0))
        self.hit = False

    def after(self, w, op, r):
        self.nav(w, w.t.get_main_view(), op, True)
        for vs in w.views:
            self.nav(w, vs.obj, op, False)

    def nav(self, w, v, op, main):
        rng = self.rng
        name = 'main view' if main else 'view'
        # callers may do what they like with the answers
        for x in [None] + list(displayed(v)):
            for told in (v.node_all_children(x),
                         v.get_paths_for_node(x) if x else [],
                         v.node_parents(x) if x else []):
                if isinstance(told, list):
                    told.reverse()
                    told.append('no node')
        paths = chains(v)
        nodes = displayed(v)
        by = {}
        for p in paths:
            by.setdefault(p[-1], set()).add(p)

        def bad(what, got, exp):
            raise Violation(what, 'after %s, %s: %r instead of %r' % (
                op, name, got, exp))
        if set(by) != set(nodes):
            bad('reachable', sorted(by), sorted(nodes))
        kids = {x: list(v.node_all_children(x)) for x in nodes}
        top = list(v.node_all_children())
        for x in nodes:
            got = lst(v.get_paths_for_node(x), 'get_paths_for_node')
            if len(got) != len(set(got)) or set(got) != by[x]:
                bad('paths of %r' % x, sorted(got), sorted(by[x]))
            if len(by[x]) > 1 and any(len(p) >= 3 for p in by[x]):
                self.hit = True
            for p in by[x]:
                if v.get_node_for_path(p) != x:
                    bad('node for path %r' % (p,), v.get_node_for_path(p), x)
            exp_par = {p[-2] for p in by[x] if len(p) > 1}
            if set(v.node_parents(x)) != exp_par:
                bad('parents of %r' % x, v.node_parents(x), exp_par)
            if bool(v.node_has_parent(x)) != bool(exp_par):
                bad('has_parent of %r' % x, v.node_has_parent(x), exp_par)
            if bool(v.node_has_child(x)) != bool(kids[x]):
                bad('has_child of %r' % x, v.node_has_child(x), kids[x])
            if v.node_n_children(x) != len(kids[x]):
                bad('n_children of %r' % x, v.node_n_children(x), kids[x])
            for i, c in enumerate(kids[x]):
                if v.node_nth_child(x, i) != c:
                    bad('child %d of %r' % (i, x), v.node_nth_child(x, i), c)
            try:
                got = v.node_nth_child(x, len(kids[x]))
            except ValueError:
                pass
            else:
                bad('child after the last of %r' % x, got, 'ValueError')
            # next sibling
            for p in exp_par:
                self.sibling(v, x, p, kids[p], bad)
            if not exp_par:
                self.sibling(v, x, None, top, bad)
            elif len(exp_par) > 1:
                got = v.next_node(x)
                if got not in [self.after_in(kids[p], x) for p in exp_par]:
                    bad('next of %r' % x, got, 'a next sibling')
            else:
                got = v.next_node(x)
                if got != self.after_in(kids[list(exp_par)[0]], x):
                    bad('next of %r' % x, got, 'the next sibling')
        memo = {}

        def total(x):
            if x not in memo:
                memo[x] = sum(1 + total(c) for c in kids[x])
            return memo[x]
        for x in nodes:
            if v.node_n_children(x, recursive=True) != total(x):
                bad('recursive count of %r' % x,
                    v.node_n_children(x, recursive=True), total(x))
        if v.node_n_children(recursive=True) != len(paths) or \
                v.node_n_children() != len(top):
            bad('counts of the top level',
                (v.node_n_children(recursive=True), v.node_n_children()),
                (len(paths), len(top)))
        # wrong paths
        allp = set(paths)
        if nodes:
            # nodes which are hidden here, and one which does not exist
            some = list(nodes) * 4 + w.t.get_main_view().get_all_nodes() + [
                'no such node']
            for _ in range(6):
                k = rng.randint(1, 4)
                q = tuple(rng.choice(some) for _ in range(k))
                if paths and rng.random() < 0.6:
                    p = list(rng.choice(paths))
                    z = rng.random()
                    if z < 0.3:
                        p.pop(rng.randrange(len(p)))
                    elif z < 0.6:
                        p.insert(rng.randint(0, len(p)), rng.choice(some))
                    elif z < 0.8:
                        p.reverse()
                    else:
                        p[rng.randrange(len(p))] = rng.choice(some)
                    q = tuple(p)
                got = v.get_node_for_path(q) if q else None
                exp = q[-1] if q in allp else None
                if got != exp:
                    bad('node for path %r' % (q,), got, exp)
        if main:
            # a node which is not there
            if list(v.node_all_children('no such node')):
                bad('children of no node',
                    v.node_all_children('no such node'), [])
            got = list(v.get_root().get_children())
            if got != top:
                bad('children of the root', got, top)
            for x in nodes:
                n = w.t.get_node(x)
                for i, c in enumerate(kids[x]):
                    if n.get_nth_child(i) != c or n.get_child_index(c) != i:
                        bad('child %d of node %r' % (i, x),
                            (n.get_nth_child(i), n.get_child_index(c)), (c, i))
                try:
                    got = n.get_nth_child(len(kids[x]))
                except ValueError:
                    pass
                else:
                    bad('child after the last of node %r' % x, got,
                        'ValueError')
                if n.get_child_index('no such node') is not None:
                    bad('index of no child', 'an index', None)
        if v.get_node_for_path(()) is not None:
            bad('empty path', v.get_node_for_path(()), None)
        if lst(v.get_paths_for_node(None) if main else [()], 'root path') != [()]:
            bad('root path', v.get_paths_for_node(None), [()])
        # printing: one line per path, in order, indented by depth
        exp = []
        stack = [(1, c) for c in reversed(top)]
        while stack:
            d, x = stack.pop()
            exp.append(' ' * d + x)
            stack += [(d + 1, c) for c in reversed(kids[x])]
        text = v.print_tree(True)
        lines = [l for l in text.split('\n') if l.startswith(' ')]
        if lines != exp:
            bad('printed tree', lines, exp)

    @staticmethod
    def after_in(l, x):
        i = l.index(x) if x in l else len(l)
        return l[i + 1] if i + 1 < len(l) else None

    def sibling(self, v, x, p, l, bad):
        exp = self.after_in(l, x)
        got = v.next_node(x, p)
        if got != exp:
            bad('next of %r below %r' % (x, p), got, exp)

    def end(self, w):
        return self.hit


class C12(ViewCheck):
    id = 'C12'
    quick, thorough = 8000, 250000
    rule = ('histories dominated by filter operations (apply with parameters '
            'and reset, unapply, reset, postponed refreshes, removal and '
            're-registration in the bank, unknown names) with tree changes in '
            'between; every view is compared with a view created afresh with '
            'the same filters, with the filters evaluated directly, and its '
            'list of applied filters with the reference list; non-trivial: at '
            'least four effective filter operations and a view which shows '
            'some but not all nodes')
    weights = gen.weights({'addp': 3, 'add': 2, 'del': 1, 'move': 2,
                           'addpar': 3, 'data': 5}, apply=14, unapply=8,
                          reset=2, multi=6, addf=3, remf=2, view=2)

    def begin(self, w):
        self.n = self.fresh = 0
        self.part = False
        w.postponing = True

    def after(self, w, op, r):
        if op[0] in ('apply', 'unapply', 'reset', 'multi', 'remf') and \
                r == 'ok':
            self.n += 1
        every = w.t.get_main_view().get_all_nodes()
        names = lst(w.t.list_filters(), 'list_filters')
        if sorted(names) != sorted(w.bank):
            raise Violation('bank', 'list_filters %s instead of %s' % (
                sorted(names), sorted(w.bank)))
        scribble(w.t.list_filters(), self.n)
        for vs in w.views:
            got = lst(vs.obj.list_applied_filters(), 'list_applied_filters')
            if got != vs.applied:
                raise Violation('applied', 'after %s: %s instead of %s' % (
                    op, got, vs.applied))
            scribble(vs.obj.list_applied_filters(), self.n)
            exp = check_members(w, vs, every)
            check_shape(w, vs)
            if exp and len(exp) < len(every):
                self.part = True
        if op[0] in ('multi', 'unapply', 'reset') and w.views and \
                self.fresh < 3:
            self.compare(w, w.views[self.n % len(w.views)], op)

    def compare(self, w, vs, op):
        """ views are never given back, so only a few times """
        self.fresh += 1
        fresh = w.t.get_viewtree()
        for f in vs.applied:
            fresh.apply_filter(f)
        a = {x: set(fresh.node_parents(x)) for x in fresh.get_all_nodes()}
        b = {x: set(vs.obj.node_parents(x)) for x in vs.obj.get_all_nodes()}
        if a != b:
            raise Violation('history', 'after %s: fresh view %s, this one %s'
                            % (op, a, b))

    def end(self, w):
        for vs in w.views:
            self.compare(w, vs, 'all operations')
        return self.n >= 4 and self.part


class C13(ViewCheck):
    id = 'C13'
    quick, thorough = 8000, 250000
    rule = SHAPE + ('; counts and lists with 0-4 extra filters (repeated, '
                    'flat and unknown ones included) asked on every view and on the main '
                    'view after every operation, twice, and compared with the '
                    'filters evaluated on the displayed nodes; the view must '
                    'not change; non-trivial: a query with two or more extra '
                    'filters gave a non-empty strict subset of the view')
    weights = gen.weights(HIST, addf=0.5)

    def gen(self, rng, tier):
        c = gen.history(rng, self.weights, filters='both', nviews=(1, 2))
        names = [f[0] for f in c['cfg']['filters']]
        c['cfg']['away'] = rng.random() < 0.25
        c['cfg']['ask'] = [
            [rng.choice(names) if rng.random() < 0.97 else 'unknown'
             for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
            for _ in range(rng.randint(1, 4))]
        return c

    def begin(self, w):
        self.hit = False
        w.asks = [list(a) for a in w.cfg['ask']] + [[]]

    def after(self, w, op, r):
        for i, v in enumerate([w.t.get_main_view()] +
                              [vs.obj for vs in w.views]):
            shown = (w.t.get_main_view().get_all_nodes() if i == 0 else
                     displayed(v))
            before = None if i == 0 else view_state(v)
            for ask in w.asks:
                exp = sorted(x for x in shown
                             if all(w.accepts(f, x) for f in ask))
                for again in (0, 1):
                    # the caller keeps its list of filters, and may do
                    # what it likes with the answer
                    told = v.get_nodes(withfilters=ask)
                    got = lst(told, 'get_nodes')
                    if isinstance(told, list):
                        told.reverse()
                        told.append('no node')
                    n = v.get_n_nodes(withfilters=ask)
                    if sorted(got) != exp or n != len(exp):
                        raise Violation('count', 'after %s: %s with %s gives '
                                        '%s (%s) instead of %s' % (
                                            op, 'main view' if i == 0 else
                                            'view', ask, sorted(got), n, exp))
                if len(ask) > 1 and exp and len(exp) < len(shown):
                    self.hit = True
            if w.asks != w.cfg['ask'] + [[]]:
                raise Violation('changed', 'counting changed the list of '
                                'filters')
            if i and view_state(v) != before:
                raise Violation('changed', 'counting changed the view')
            if not i and sorted(shown) != sorted(
                    w.t.get_main_view().get_all_nodes()):
                raise Violation('changed', 'counting changed the main view')
        if w.cfg.get('away'):
            self.away(w, op)

    def away(self, w, op):
        """ nothing passes a filter which has left the bank; the filter
        comes back before anything else happens """
        names = [f for f in sorted(w.bank)
                 if any(f in vs.applied for vs in w.views)] or sorted(w.bank)
        if not names:
            return
        name = names[len(w.stats) % len(names)]
        spec, params = w.bank[name]
        w.real(lambda: w.t.remove_filter(name))
        other = [f for f in sorted(w.bank) if f != name][:1]
        for v in [w.t.get_main_view()] + [vs.obj for vs in w.views]:
            for ask in ([name], other + [name], [name] + other):
                got = lst(w.real(lambda: v.get_nodes(withfilters=ask)),
                          'get_nodes')
                if got or v.get_n_nodes(withfilters=ask):
                    raise Violation('count', 'after %s: %s pass %s of which '
                                    '%r is not in the bank' % (
                                        op, got, ask, name))
        w.given[name] = dict(params) if params else None
        if not w.real(lambda: w.t.add_filter(
                name, w.funcs[str(spec)], w.given[name])):
            raise Violation('bank', 'add_filter(%r) was refused' % name)

    def end(self, w):
        return self.hit
