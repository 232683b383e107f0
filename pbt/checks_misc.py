"""C14-C17: counts, independence of views and listeners, queued actions,
requests from other threads."""
import threading

import gen
from checks import Check
from checks_tree import lst, real_state, integrity, view_state
from checks_view import ASSUME, HIST, SHAPE, check_members, check_shape, chains
from model import Refused
from world import Nd, Violation, Void, World, unexpected


class CountState(object):
    def __init__(self, w, obj, name):
        self.w, self.obj, self.name = w, obj, name
        self.applied = []
        self.listeners = []
        self.ready = True

    def resync(self, name):
        if name in self.applied and self.w.cfg.get('stays'):
            # the filter stays applied, nothing passes it while it is gone
            self.w.real(lambda: self.w.t.refresh_all())
        elif name in self.applied:
            self.w.real(lambda: self.obj.unapply_filter(name))
            self.applied.remove(name)
            if name in self.w.bank:
                self.w.real(lambda: self.obj.apply_filter(name))
                self.applied.append(name)


class Listener(object):
    """ records the number it can read whenever it is called """

    def __init__(self, obj, once=False):
        self.obj, self.seen, self.on, self.once = obj, [], True, once

    def __call__(self):
        self.seen.append(self.obj.get_n_nodes())
        if self.once and self.on:
            # has enough after the first call
            self.on = False
            self.obj.unregister_cllbck(self)
            self.seen = []


class CountWorld(World):
    def op_count(self, name, refresh=True):
        if len(self.counts) >= 4:
            return 'skip'
        for cs in self.counts:
            if name is not None and cs.name == name:
                if self.t.get_viewcount(name) is not cs.obj:
                    raise Violation('name', 'another count for %r' % name)
                return 'noop'
        if refresh:
            cs = CountState(self, self.real(
                lambda: self.t.get_viewcount(name=name)), name)
        else:
            # it counts from the first filter on
            cs = CountState(self, self.real(
                lambda: self.t.get_viewcount(name=name, refresh=False)), name)
            cs.ready = False
        if any(o.obj is cs.obj for o in self.counts):
            raise Violation('name', 'two counts are one')
        self.counts.append(cs)
        return 'ok'

    def cs(self, i):
        return self.counts[i % len(self.counts)] if self.counts else None

    def op_capply(self, i, name):
        cs = self.cs(i)
        if cs is None:
            return 'skip'
        self.real(lambda: cs.obj.apply_filter(name))
        if name in self.bank and name not in cs.applied:
            cs.applied.append(name)
            cs.ready = True
            return 'ok'
        return 'noop'

    def op_capply2(self, i, one, two):
        """ Two filters, the first one without counting again """
        cs = self.cs(i)
        if cs is None or one not in self.bank or two not in self.bank or \
                one == two or one in cs.applied or two in cs.applied:
            return 'skip'
        self.real(lambda: cs.obj.apply_filter(one, refresh=False))
        self.real(lambda: cs.obj.apply_filter(two))
        cs.applied += [one, two]
        cs.ready = True
        return 'ok'

    def op_cunapply(self, i, name):
        cs = self.cs(i)
        if cs is None:
            return 'skip'
        self.real(lambda: cs.obj.unapply_filter(name))
        if name in cs.applied:
            cs.applied.remove(name)
            return 'ok'
        return 'noop'

    def op_clisten(self, i, once=False):
        cs = self.cs(i)
        if cs is None or len(cs.listeners) > 4:
            return 'skip'
        l = Listener(cs.obj, once)
        cs.listeners.append(l)
        self.real(lambda: cs.obj.register_cllbck(l))
        return 'ok'

    def op_cmodify(self, i, x, data=None):
        """ A node is looked at again on request """
        if data is not None:
            # changed silently, every count is told by hand
            if not self.t.has_node(x):
                return 'skip'
            n = self.t.get_node(x)
            n.colors, n.val = set(data[0]), data[1]
            for cs in self.counts:
                if cs.ready:
                    self.real(lambda: cs.obj.modify(x))
            return 'ok'
        cs = self.cs(i)
        if cs is None or not cs.ready:
            return 'skip'
        self.real(lambda: cs.obj.modify(x))
        return 'ok'

    def op_cunlisten(self, i, j):
        cs = self.cs(i)
        live = [l for l in cs.listeners if l.on] if cs else []
        if not live:
            return 'skip'
        l = live[j % len(live)]
        self.real(lambda: cs.obj.unregister_cllbck(l))
        l.on = False
        return 'ok'


class C14(Check):
    id = 'C14'
    quick, thorough = 50000, 400000
    rule = ('histories of structural, data and filter operations over 2-24 '
            'ids with up to four named or anonymous counts created at any '
            'time, own-data filters (negated ones, removed and re-registered '
            'ones included), listeners coming and going; non-trivial: a count '
            'with a filter had a value strictly between zero and all, and a '
            'listener was called')
    assumptions = ['filters of a count decide on the data of the node itself',
                   'data changes are followed by a refresh request',
                   'one thread; a filter changed in the bank is unapplied and '
                   'applied again, or all nodes are refreshed, for it to take '
                   'effect']
    weights = gen.weights(gen.STRUCT, gen.PRE, gen.DATA, addf=1, remf=0.8,
                          enp=0.5, enc=0.5)

    def gen(self, rng, tier):
        g = gen.Gen(rng)
        g.deep_specs = []
        g.filters = gen.pick_filters(rng, 'own', ids=g.ids)
        names = ['c', 'count', u'\xe9', 'all', '', 'main']
        if rng.random() < 0.7:
            g.emit('count', rng.choice(names + [None]))
            if rng.random() < 0.7:
                g.emit('capply', 0, rng.choice(g.filters)[0])
            if rng.random() < 0.7:
                g.emit('clisten', 0)
        if rng.random() < 0.9:
            g.build()
        for _ in range(g.length()):
            r = rng.random()
            if r < 0.07:
                g.emit('count', rng.choice(names) if rng.random() < 0.5
                       else None, rng.random() < 0.8)
            elif r < 0.09:
                g.emit('capply2', rng.randint(0, 3), g.fname(), g.fname())
            elif r < 0.22:
                g.emit('capply', rng.randint(0, 3), g.fname())
            elif r < 0.30:
                g.emit('cunapply', rng.randint(0, 3), g.fname())
            elif r < 0.36:
                g.emit('clisten', rng.randint(0, 3), rng.random() < 0.2)
            elif r < 0.38:
                g.emit('cmodify', rng.randint(0, 3), rng.choice(g.ids))
            elif r < 0.40:
                g.emit('cmodify', 0, rng.choice(g.ids),
                       [g.colors(), g.val()])
            elif r < 0.43:
                g.emit('cunlisten', rng.randint(0, 3), rng.randint(0, 3))
            else:
                g.run(self.weights, 1)
        return {'cfg': {'filters': g.filters, 'views': [],
                        'stays': rng.random() < 0.4}, 'ops': g.ops}

    def run(self, case, info):
        w = CountWorld(case['cfg'], mirrors=False)
        info['stats'] = w.stats
        part = called = False
        for op in case['ops']:
            old = [cs.obj.get_n_nodes() for cs in w.counts]
            for cs in w.counts:
                for l in cs.listeners:
                    l.seen = []
            # listeners which were registered all along
            live = [[l for l in cs.listeners if l.on] for cs in w.counts]
            r = w.step(op)
            for i, cs in enumerate(w.counts):
                if not cs.ready:
                    continue
                exp = len(w.expected(cs.applied))
                got = cs.obj.get_n_nodes()
                if got != exp:
                    raise Violation('count', 'after %s: %s with %s instead of '
                                    '%d' % (op, got, cs.applied, exp))
                if cs.applied and 0 < exp < len(w.m.nodes):
                    part = True
                for l in cs.listeners:
                    if not l.on and l.seen:
                        raise Violation('unregistered', 'a listener was '
                                        'called after unregistering')
                if i < len(old):
                    for l in live[i]:
                        if not l.on:
                            continue
                        seq = [old[i]] + l.seen
                        if l.seen:
                            called = True
                        if seq[-1] != got:
                            raise Violation(
                                'listener', 'after %s: count went from %d to '
                                '%d, the listener saw %s' % (
                                    op, old[i], got, l.seen))
        info['nontrivial'] = part and called


class C15(Check):
    id = 'C15'
    quick, thorough = 15000, 250000
    rule = ('histories over 1-4 named and anonymous views and the main view '
            'with listeners registered and deregistered at any time, also '
            'from inside a notification; each listener must have received '
            'exactly the notifications a permanent listener of the same view '
            'and event received while it was registered; a filter operation '
            'must not notify or change other views; non-trivial: two views '
            'showed different nodes and a listener was deregistered after '
            'having been called')
    assumptions = ASSUME + ['a listener registered or deregistered inside a '
                            'notification may or may not get that very '
                            'notification']
    weights = gen.weights(HIST, view=2, apply=8)
    EVENTS = ['node-added-inview', 'node-deleted-inview',
              'node-modified-inview']
    MAIN = ['node-added', 'node-deleted', 'node-modified']

    def gen(self, rng, tier):
        c = gen.history(rng, self.weights, filters='both', nviews=(1, 3))
        for _ in range(rng.randint(2, 12)):
            i = rng.randint(0, len(c['ops']))
            r = rng.random()
            if r < 0.07:
                c['ops'].insert(i, ['twin', rng.randint(0, 4),
                                    rng.randint(0, 2)])
            elif r < 0.55:
                c['ops'].insert(i, ['reg', rng.randint(0, 4),
                                    rng.randint(0, 2)])
            elif r < 0.8:
                c['ops'].insert(i, ['unreg', rng.randint(0, 9)])
            elif r < 0.9:
                c['ops'].insert(i, ['inreg', rng.randint(0, 4),
                                    rng.randint(0, 2), rng.randint(0, 3)])
            else:
                c['ops'].insert(i, ['ask', rng.choice(gen.VIEW_NAMES)])
        # names are asked for again
        for i in range(rng.randint(1, 3)):
            own = [v['name'] for v in c['cfg']['views'] if v.get('name')
                   is not None] or gen.VIEW_NAMES
            c['ops'].append(['ask', rng.choice(own)])
        # another tree in the same program, with the same ids and names
        if rng.random() < 0.25:
            o = gen.history(rng, self.weights, filters='both', nviews=(1, 2))
            c['cfg']['other'] = o['cfg']
            k = min(len(o['ops']), 25)
            at = sorted(rng.randint(0, len(c['ops'])) for _ in range(k))
            for n, (i, op) in enumerate(zip(at, o['ops'])):
                c['ops'].insert(i + n, ['other', op])
        return c

    def run(self, case, info):
        w = World(case['cfg'], mirrors=False)
        info['stats'] = w.stats
        w2 = None
        if case['cfg'].get('other'):
            w2 = World(case['cfg']['other'], mirrors=True)

        def outline(w):
            """ what a tree and its views show, and who was notified """
            return (real_state(w.t), [
                (view_state(vs.obj), list(vs.obj.list_applied_filters()),
                 [set(m.rows) for m in vs.mirrors]) for vs in w.views],
                sorted(w.t.list_filters()))
        # channel: (view object, event) -> permanent log, other listeners
        chans = {}
        order = []
        objs = []

        def watch(v, events):
            for ev in events:
                ch = {'log': [], 'others': [], 'keys': set(), 'todo': [],
                      'v': v, 'ev': ev, 'busy': False}

                def perm(nid, path=None, ch=ch):
                    ch['log'].append((nid, path))
                    ch['busy'] = True
                    if ch['todo']:
                        ch['todo'].pop(0)()
                    ch['busy'] = False
                key = v.register_cllbck(ev, perm)
                ch['keys'].add(key)
                chans[(id(v), ev)] = ch
                order.append(ch)
            objs.append(v)

        def register(ch):
            l = {'got': [], 'start': len(ch['log']), 'end': None, 'ch': ch,
                 'maybe': set()}
            if ch['busy']:
                l['maybe'].add(l['start'] - 1)

            def f(nid, path=None):
                l['got'].append((nid, path))
            key = w.real(lambda: ch['v'].register_cllbck(ch['ev'], f))
            if key in ch['keys']:
                raise Violation('key', 'key %r is used twice' % (key,))
            ch['keys'].add(key)
            l['key'] = key
            ch['others'].append(l)

        def unregister(l):
            l['end'] = len(l['ch']['log'])
            if l['ch']['busy']:
                l['maybe'].add(l['end'] - 1)
            w.real(lambda: l['ch']['v'].deregister_cllbck(
                l['ch']['ev'], l['key']))
            l['ch']['keys'].discard(l['key'])

        # one function registered more than once is as many listeners
        twins = []

        def judge():
            for tw in twins:
                exp = []
                for i, n in enumerate(tw['ch']['log'][tw['start']:]):
                    exp += [n] * (2 if tw['end'] is None or
                                  i < tw['end'] - tw['start'] else 1)
                if tw['got'] != exp:
                    raise Violation('listener', 'after %s, %s: a function '
                                    'registered twice%s got %s instead of %s' %
                                    (w.last, tw['ch']['ev'],
                                     '' if tw['end'] is None else
                                     ' and deregistered once', tw['got'], exp))
            for ch in order:
                for l in ch['others']:
                    lo, hi = l['start'], l['end']
                    log = ch['log']
                    hi = len(log) if hi is None else hi
                    exp = log[lo:hi]
                    if l['got'] == exp:
                        continue
                    # notifications in progress when it came or went
                    opts = []
                    m = sorted(l['maybe'])
                    for mask in range(1 << len(m)):
                        pick = {m[i] for i in range(len(m)) if mask >> i & 1}
                        drop = {m[i] for i in range(len(m))
                                if not mask >> i & 1}
                        idx = [i for i in range(len(log))
                               if (lo <= i < hi and i not in drop) or
                               i in pick]
                        opts.append([log[i] for i in idx])
                    if l['got'] not in opts:
                        raise Violation(
                            'listener', 'after %s, %s: a listener got %s '
                            'instead of %s' % (w.last, ch['ev'], l['got'],
                                               exp))

        mv = w.t.get_main_view()
        watch(mv, self.MAIN)
        for vs in w.views:
            watch(vs.obj, self.EVENTS)
        differ = gone = False
        named = {}
        counts = {}

        def now():
            return ([(view_state(vs.obj), list(vs.obj.list_applied_filters()))
                     for vs in w.views], [len(ch['log']) for ch in order])
        quiet = None
        for op in case['ops'] + [['end']]:
            for vs in w.views:
                if vs.name is not None:
                    named[vs.name] = vs.obj
            # these operations change no view and notify nobody
            if quiet is not None and quiet[0] != now():
                raise Violation('quiet', '%s changed a view or notified its '
                                'listeners' % (quiet[1],))
            quiet = (now(), op) if op[0] in ('reg', 'unreg', 'twin', 'ask') \
                else None
            if op[0] == 'end':
                break
            if op[0] == 'other':
                if w2 is None:
                    continue
                nlog = [len(ch['log']) for ch in order]
                before = outline(w)
                w2.step(op[1])
                w.bump('other')
                if outline(w) != before or \
                        nlog != [len(ch['log']) for ch in order]:
                    raise Violation('trees', '%s on one tree changed another '
                                    'tree or notified its listeners' % (op,))
                mine = [vs.obj for vs in w.views] + [mv]
                if any(vs.obj in mine for vs in w2.views) or \
                        w2.t.get_main_view() in mine:
                    raise Violation('trees', 'two trees share a view')
                mroot, mst = w2.m.state()
                root, st = real_state(w2.t)
                if (root, st) != (mroot, mst):
                    raise Violation('trees', 'after %s: the second tree has '
                                    '%s %s' % (op, root, st))
                every = w2.t.get_main_view().get_all_nodes()
                for vs in w2.views:
                    check_members(w2, vs, every)
                    check_shape(w2, vs)
                continue
            if op[0] == 'reg':
                ch = order[(op[1] * 3 + op[2]) % len(order)]
                if len(ch['others']) < 6:
                    register(ch)
                continue
            if op[0] == 'twin':
                ch = order[(op[1] * 3 + op[2]) % len(order)]
                mine = [tw for tw in twins if tw['ch'] is ch]
                if mine:
                    tw = mine[0]
                    if tw['end'] is None:
                        tw['end'] = len(ch['log'])
                        w.real(lambda: ch['v'].deregister_cllbck(
                            ch['ev'], tw['keys'][op[2] % 2]))
                        ch['keys'].discard(tw['keys'][op[2] % 2])
                    continue
                tw = {'ch': ch, 'got': [], 'start': len(ch['log']),
                      'end': None}

                def same(nid, path=None, tw=tw):
                    tw['got'].append((nid, path))
                tw['keys'] = [w.real(lambda: ch['v'].register_cllbck(
                    ch['ev'], same)) for _ in range(2)]
                ch['keys'] |= set(tw['keys'])
                twins.append(tw)
                continue
            if op[0] == 'unreg':
                live = [l for ch in order for l in ch['others']
                        if l['end'] is None]
                if live:
                    l = live[op[1] % len(live)]
                    gone = gone or bool(l['got'])
                    unregister(l)
                continue
            if op[0] == 'inreg':
                ch = order[(op[1] * 3 + op[2]) % len(order)]
                live = [l for l in ch['others'] if l['end'] is None]
                if op[3] and live:
                    l = live[op[3] % len(live)]
                    ch['todo'].append(
                        lambda l=l: unregister(l) if l['end'] is None else 0)
                elif len(ch['others']) < 6:
                    ch['todo'].append(lambda ch=ch: register(ch))
                continue
            if op[0] == 'ask':
                # a known name gives the known view, and no name a new one
                if op[1] in named:
                    if w.t.get_viewtree(op[1]) is not named[op[1]]:
                        raise Violation('name', 'another view for %r' % op[1])
                if len(w.views) < 4:
                    a = w.t.get_viewtree()
                    if a in objs or a is w.t.get_main_view():
                        raise Violation('name', 'an unnamed view is not new')
                if w.t.get_main_view() is not mv or \
                        w.t.get_viewtree('main') is not mv:
                    raise Violation('name', 'another main view')
                # counts are named on their own
                c = w.t.get_viewcount(op[1])
                if w.t.get_viewcount(op[1]) is not c or \
                        counts.setdefault(op[1], c) is not c:
                    raise Violation('name', 'another count for %r' % op[1])
                if sum(o is c for o in counts.values()) > 1 or \
                        w.t.get_viewcount() in counts.values():
                    raise Violation('name', 'two counts are one')
                if op[1] in named and \
                        w.t.get_viewtree(op[1]) is not named[op[1]]:
                    raise Violation('name', 'another view for %r' % op[1])
                continue
            nlog = [len(ch['log']) for ch in order]
            states = [(vs, view_state(vs.obj), list(vs.applied))
                      for vs in w.views]
            tree = real_state(w.t)
            there = w2 and outline(w2)
            r = w.step(op)
            if w2 and outline(w2) != there:
                raise Violation('trees', '%s on one tree changed another' %
                                (op,))
            for vs in w.views:
                if vs.obj not in objs:
                    watch(vs.obj, self.EVENTS)
                    if sum(o.obj is vs.obj for o in w.views) > 1:
                        raise Violation('name', 'two views are one')
            if op[0] in ('apply', 'unapply', 'reset', 'multi', 'view') and \
                    r != 'skip':
                target = w.view(op[1]) if op[0] != 'view' else w.views[-1]
                # parameters belong to the filter, which views share
                shared = (op[0] == 'apply' and op[3]) or (
                    op[0] == 'multi' and any(
                        o[0] == 'apply' and o[2] for o in op[2]))
                if not shared:
                    for vs, st, ap in states:
                        if vs is target:
                            continue
                        if view_state(vs.obj) != st:
                            raise Violation('isolation', '%s changed another '
                                            'view' % (op,))
                        if list(vs.obj.list_applied_filters()) != ap:
                            raise Violation('isolation', '%s changed the '
                                            'filters of another view' % (op,))
                    for ch, n in zip(order, nlog):
                        if ch['v'] is not target.obj and len(ch['log']) != n:
                            raise Violation('isolation', '%s notified a '
                                            'listener of another view' % (op,))
                if real_state(w.t) != tree:
                    raise Violation('isolation', '%s changed the tree' % (op,))
                # the main view takes no filters
                before = sorted(mv.get_all_nodes())
                for f in (lambda: mv.apply_filter('f'),
                          lambda: mv.unapply_filter('f'),
                          lambda: mv.reset_filters()):
                    try:
                        f()
                    except Exception:
                        pass
                    else:
                        raise Violation('main', 'the main view took a filter '
                                        'operation')
                if sorted(mv.get_all_nodes()) != before:
                    raise Violation('main', 'changed by a refused operation')
                if list(w.real(lambda: mv.list_applied_filters())):
                    raise Violation('main', 'the main view has filters')
            if sorted(mv.get_all_nodes()) != sorted(w.m.nodes) or \
                    chains(mv) is None:
                raise Violation('main', 'the main view shows %s of %s' % (
                    sorted(mv.get_all_nodes()), sorted(w.m.nodes)))
            judge()
            sets = [frozenset(vs.obj.get_all_nodes()) for vs in w.views]
            differ = differ or len(set(sets)) > 1
            for a in w.views:
                for b in w.views:
                    if a is not b and a.obj is b.obj:
                        raise Violation('name', 'views are not distinct')
        info['nontrivial'] = differ and gone


class C16(Check):
    id = 'C16'
    quick, thorough = 25000, 250000
    rule = (SHAPE + '; actions (returning true or false values) queued on '
            'displayed, hidden and missing nodes of several views, main-loop '
            'iterations in between; each action must run once, at the '
            'operation after which its node is first displayed, or in the '
            'main loop; non-trivial: an action waited for its node over at '
            'least one operation, and another ran from the main loop')
    assumptions = ASSUME + ['actions do not change the tree']
    weights = HIST

    def gen(self, rng, tier):
        c = gen.history(rng, self.weights, filters='both', nviews=(1, 2))
        if rng.random() < 0.3:
            # filter operations whose refresh is postponed
            for i, op in enumerate(c['ops']):
                if op[0] in ('apply', 'unapply', 'reset') and \
                        rng.random() < 0.6:
                    c['ops'][i] = op + [False]
        ids = sorted({op[1] for op in c['ops'] if op[0] == 'add'}) or ['x']
        for _ in range(rng.randint(1, 8)):
            c['ops'].insert(rng.randint(0, len(c['ops'])),
                            ['action', rng.choice([0, 0, 0, 1, 1, 1, 2]),
                             rng.choice(ids),
                             rng.choice([0, 0, 1]),
                             rng.choice([0, 0, 0, 0, 0, 0, 1, 1, 2, 3]),
                             rng.choice([None, None, None, 0, 1, 2, 3])])
        for _ in range(rng.randint(0, 3)):
            c['ops'].insert(rng.randint(0, len(c['ops'])), ['loop'])
        return c

    def run(self, case, info):
        from gi.repository import GLib
        ctx = GLib.MainContext.default()
        for _ in range(200):
            if not ctx.iteration(False):
                break
        w = World(case['cfg'], mirrors=False)
        info['stats'] = w.stats

        class Main(object):
            obj = w.t.get_main_view()
        acts = []
        runs = []
        pending = {}            # (view, node, from the main loop) -> actions
        errors = []
        waited = looped = False

        def drain():
            for i in range(500):
                if not ctx.iteration(False):
                    return
            raise Violation('repeat', 'the main loop never gets idle')

        def settle(phase, op):
            """ actions which ran in this phase """
            if errors:
                raise Violation('moment', 'during %s: %s' % (op, errors[0]))
            for a in acts:
                if a['runs'] > a['want']:
                    raise Violation('repeat', 'action %s on %r ran %d times' %
                                    (a['no'], a['nid'], a['runs']))
        for op in case['ops']:
            if op[0] == 'action':
                vs = Main if op[1] == 2 else w.view(op[1])
                if vs is None or len(acts) > 20:
                    continue
                for k in range(2 if op[4] == 1 else 1):
                    kind = op[5] if len(op) > 5 else None
                    given = ('param', len(acts)) if kind is None else \
                        [0, [], '', None][kind]
                    a = {'no': len(acts), 'vs': vs, 'nid': op[2], 'runs': 0,
                         'idle': bool(vs.obj.is_displayed(op[2])), 'age': 0,
                         'want': op[4] if op[4] > 1 else 1}

                    def func(param, a=a, ret=op[3], given=given):
                        a['runs'] += 1
                        runs.append(a['no'])
                        if type(param) != type(given) or param != given:
                            errors.append('action %d got %r' % (a['no'],
                                                                param))
                        if not a['idle'] and not a['vs'].obj.is_displayed(
                                a['nid']):
                            errors.append('%r is not displayed when its '
                                          'action runs' % a['nid'])
                        if a['idle'] and not self.looping:
                            errors.append('the action on the displayed %r '
                                          'did not run from the main loop' %
                                          a['nid'])
                        return ret
                    acts.append(a)
                    self.looping = False
                    w.last = op
                    # the same action may be queued several times
                    for _ in range(a['want']):
                        pending.setdefault((id(vs), op[2], a['idle']),
                                           []).append(a['no'])
                        if kind == 3:
                            w.real(lambda: vs.obj.queue_action(op[2], func))
                        else:
                            w.real(lambda: vs.obj.queue_action(
                                op[2], func, param=given))
                    if not a['idle'] and a['runs']:
                        raise Violation('early', 'action on the hidden %r ran '
                                        'at once' % op[2])
                w.bump('action')
                settle('queue', op)
                continue
            if op[0] == 'loop':
                self.looping = True
                del runs[:]
                drain()
                self.looping = False
                settle('loop', op)
                for a in acts:
                    if a['idle'] and a['runs'] != a['want']:
                        raise Violation('lost', 'action %d on the displayed '
                                        '%r did not run from the main loop' %
                                        (a['no'], a['nid']))
                    if a['idle']:
                        looped = True
                self.in_order(acts, runs, pending)
                w.bump('loop')
                continue
            del runs[:]
            self.looping = False
            w.step(op)
            settle('op', op)
            self.in_order(acts, runs, pending)
            for a in acts:
                shown = a['vs'].obj.is_displayed(a['nid'])
                if not a['idle']:
                    if shown and a['runs'] != a['want']:
                        raise Violation('lost', 'after %s: %r is displayed '
                                        'but action %d did not run' % (
                                            op, a['nid'], a['no']))
                    if a['runs'] and a['age'] >= 1:
                        waited = True
                    if a['runs'] == 0:
                        a['age'] += 1
        self.looping = True
        del runs[:]
        drain()
        settle('end', 'the end')
        self.in_order(acts, runs, pending)
        for a in acts:
            if a['idle']:
                looped = True
                if a['runs'] != a['want']:
                    raise Violation('lost', 'action %d on the displayed %r '
                                    'never ran' % (a['no'], a['nid']))
        info['nontrivial'] = waited and looped

    @staticmethod
    def in_order(acts, runs, pending):
        by = {}
        for no in runs:
            a = acts[no]
            by.setdefault((id(a['vs']), a['nid'], a['idle']), []).append(no)
        for key, nos in by.items():
            first, pending[key] = (pending[key][:len(nos)],
                                   pending[key][len(nos):])
            if nos != first:
                raise Violation('order', 'actions on %r ran as %s' % (
                    key[1], nos))


class Owner(object):
    """ The thread which owns the tree: this one, or another one """

    def __init__(self, foreign):
        self.todo = None
        if foreign:
            self.ask, self.done = threading.Event(), threading.Event()
            self.th = threading.Thread(target=self.loop)
            self.th.daemon = True
            self.th.start()
        else:
            self.th = None

    def loop(self):
        while True:
            self.ask.wait()
            self.ask.clear()
            if self.todo is None:
                return
            try:
                self.out = (True, self.todo())
            except BaseException as e:      # noqa
                self.out = (False, e)
            self.done.set()

    def __call__(self, f):
        if self.th is None:
            return f()
        self.todo = f
        self.ask.set()
        self.done.wait()
        self.done.clear()
        if self.out[0]:
            return self.out[1]
        raise self.out[1]

    def stop(self):
        if self.th is not None:
            self.todo = None
            self.ask.set()
            self.th.join()


PRIO = ('high', 'normal', 'low')


class Waiting:
    """ the model together with the requests which wait for the main loop """

    def __init__(self, m):
        self.m = m
        self.q = {p: [] for p in PRIO}
        self.calls = {}
        self.applied = self.refused = 0

    def copy(self):
        h = Waiting(self.m.copy())
        h.q = {p: v[:] for p, v in self.q.items()}
        h.calls = dict(self.calls)
        h.applied, h.refused = self.applied, self.refused
        return h

    def key(self):
        return tuple(tuple(self.q[p]) for p in PRIO), \
            tuple(self.m.pending)

    def pending(self):
        return sum(len(v) for v in self.q.values())

    def push(self, pl, call):
        """ an equal request which waits already is enough """
        if len(pl) > 3:
            # a move: its node does not wait for other parents any more
            self.m._forget(pl[3])
        q = self.q[pl[2] if pl[2] in ('low', 'high') else 'normal']
        n = len(q)
        for req in pl[1]:
            if req not in q:
                q.append(req)
                if req[0] == 'brk':
                    self.calls[req] = call
        return len(q) > n

    def apply(self, req):
        """ the effect of one request on the model """
        m = self.m
        try:
            if req[0] == 'add':
                m.add(req[1], req[2])
            elif req[0] == 'del':
                m.delete(req[1], req[2])
            elif req[0] == 'rel':
                p, c = req[1], req[2]
                if (p, c) in m.pending:
                    m.pending.remove((p, c))
                if p in m.nodes and c in m.nodes:
                    m._relate(p, c)
                else:
                    m.pending.append((p, c))
            elif req[0] == 'brk':
                p, c = req[1], req[2]
                m.pending = [x for x in m.pending if x != (p, c)]
                if c in m.nodes and p in m.nodes[c].parents:
                    m._unlink(p, c)
        except Refused:
            self.refused += 1

    def next(self):
        """ the ways to take the next request; nothing tells in which order
        one call takes its node off its former parents """
        for p in PRIO:
            q = self.q[p]
            if q:
                n = 1
                if q[0][0] == 'brk':
                    call = self.calls.get(q[0])
                    while n < len(q) and n < 8 and q[n][0] == 'brk' and \
                            self.calls.get(q[n]) == call:
                        n += 1
                return [(p, i) for i in range(n)]
        return []

    def explain(self, snapshot, mods, fired, calls):
        """ every run of requests from the front of the queues which explains
        what is seen after an iteration; if there is none, (the model after
        all of them, the requests) """
        if not self.pending():
            if snapshot == self.m.state() and not fired:
                yield self
                return
            yield (self.m, [])
            return
        found = False
        last = None
        mods = set(mods)
        steps = 0
        limit = 6 if self.applied < 40 else 2
        # (what waits, requests taken, refreshes to see, nodes added, and
        # how many more requests to look at)
        todo = [(self, [], frozenset(), frozenset(), 10 ** 6)]
        known = set()
        while todo and steps < 4000:
            h, done, need, added, left = todo.pop(0)
            ways = h.next() if left else []
            if not ways and not last:
                last = (h.m, done)
            for p, i in ways:
                g = h.copy()
                req = g.q[p].pop(i)
                here = req[1] in g.m.nodes
                g.apply(req)
                g.applied += 1
                steps += 1
                nd, ad = need, added
                if req[0] == 'mod' and here:
                    nd = need | {req[1]}
                if req[0] == 'add' and req[1] in fired and \
                        req[1] not in added and not here:
                    ad = added | {req[1]}
                    for pl in fired[req[1]]:
                        calls[0] += 1
                        g.push(pl, calls[0])
                key = (g.key(), nd, ad)
                if key in known:
                    continue
                known.add(key)
                n = left - 1
                if found:
                    n = min(n, limit)
                if nd <= mods and len(ad) == len(fired) and \
                        snapshot == g.m.state():
                    found = True
                    yield g
                    n = limit
                todo.append((g, done + [req], nd, ad, n))
        if not found:
            yield last or (self.m, [])


class C17(Check):
    id = 'C17'
    quick, thorough = 30000, 250000
    rule = ('batches of requests (add with each priority, delete, refresh '
            'with each priority, add_parent, add_child, remove_parent, '
            'move_node) issued from other threads and from the owning thread '
            '(the main one or another one), with main-loop iterations in '
            'between under the control of the harness; the reference applies '
            'them one per iteration, highest priority first, first in first '
            'out, equal pending requests merged; refused requests included; '
            'compared after every iteration; requests made by another thread '
            'while one is carried out; plus batches from threads '
            'running concurrently; non-trivial: requests of two priorities '
            'were pending together and at least four were applied')
    assumptions = ['relations are requested between nodes the requesting '
                   'thread can already see',
                   'a move from another thread is the request for the new '
                   'relation followed by those to break the others',
                   'an iteration of the main loop with requests pending '
                   'applies at least one of them']

    def gen(self, rng, tier):
        g = gen.Gen(rng, size=rng.choice([2, 3, 4, 5, 6, 8, 12]))
        ops = []
        g.filters = gen.pick_filters(rng, 'both', ids=g.ids)
        prio = ['low', 'low', 'normal', 'high', None]

        def request():
            r = rng.random()
            if r < 0.4:
                return ['add', g.any(), g.any() if rng.random() < 0.6
                        else None, rng.choice(prio[:4]), g.colors()]
            if r < 0.52:
                return ['del', g.any(), rng.random() < 0.3]
            if r < 0.53:
                return ['all']
            if r < 0.7:
                return ['data', g.any(), g.colors(), rng.choice(prio[:4]),
                        rng.random() < 0.3]
            if r < 0.84:
                return ['par', g.any(), g.any()]
            return [rng.choice(['child', 'rempar', 'rempar', 'move', 'move',
                                'moveroot']), g.any(), g.any()]
        g.build()
        pre = [op for op in g.ops if op[0] in ('add', 'addpar')]
        pre = pre[:rng.randint(0, len(pre))]
        for op in pre:
            if op[0] == 'add':
                ops.append(['main', ['add', op[1], op[2], 'low', op[3]]])
            else:
                ops.append(['main', ['par', op[1], op[2]]])
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            if rng.random() < gen.LARGE:
                # more requests than anybody would expect to wait
                pr = rng.choice(prio)
                ops.append(['thread', [
                    request() if rng.random() < 0.1 else
                    ['add', 'b%d.%d' % (len(ops), i),
                     None if i % 3 else g.any(), pr or 'low', g.colors()]
                    for i in range(rng.choice([70, 150, 300]))]])
            elif r < 0.6:
                ops.append(['thread', [request() for _ in range(
                    rng.choice([1, 2, 3, 4, 6, 10]))]])
            elif r < 0.75:
                ops.append(['main', request()])
            elif r < 0.92:
                ops.append(['iter', rng.choice([1, 1, 2, 3, 5, 99])])
            elif r < 0.96:
                # another thread makes requests while one is carried out
                ops.append(['hook', g.any(), [rng.choice([
                    ['add', 'h%d.%d' % (len(ops), j), None,
                     rng.choice(prio[:3] + ['high']), g.colors()],
                    ['del', g.any(), rng.random() < 0.3],
                    ['data', g.any(), g.colors(), rng.choice(prio[:4])]])
                    for j in range(rng.randint(1, 3))]])
            else:
                k = rng.randint(2, 4)
                ops.append(['race', [['r%d.%d.%d' % (len(ops), i, j)
                                      for j in range(rng.randint(1, 6))]
                                     for i in range(k)]])
        return {'cfg': {'filters': g.filters[:2],
                        'apply': rng.random() < 0.6,
                        'foreign': rng.random() < 0.15}, 'ops': ops}

    def run(self, case, info):
        owner = Owner(case['cfg'].get('foreign'))
        try:
            self.go(case, info, owner)
        finally:
            owner.stop()

    def go(self, case, info, owner):
        from gi.repository import GLib
        ctx = GLib.MainContext.default()
        for _ in range(1000):
            if not ctx.iteration(False):
                break
        w = owner(lambda: World({'filters': case['cfg']['filters'],
                                 'views': [{}]}, mirrors=True))
        if case['cfg']['apply'] and case['cfg']['filters']:
            owner(lambda: w.step(['apply', 0, case['cfg']['filters'][0][0],
                                  None, False]))
        info['stats'] = stats = {}
        t = w.t
        nodes = {}
        # what may be waiting: a request without effect cannot be seen to
        # be applied, so there may be several answers
        hyps = [Waiting(w.m)]
        mixed = False
        mods = []
        t.get_main_view().register_cllbck(
            'node-modified', lambda nid, path=None: mods.append(nid))
        adds = []
        hooks = {}              # node -> requests made when it is added
        calls = [0]             # which call made a request
        fired = {}              # those which were made, by the node

        def added(nid, path=None):
            adds.append(nid)
            for r in hooks.pop(nid, []):
                pl = plan(r, 'thread')
                if pl is None:
                    continue
                fired.setdefault(nid, []).append(pl)
                err = []

                def body():
                    try:
                        pl[0]()
                    except BaseException as e:      # noqa
                        err.append(e)
                th = threading.Thread(target=body)
                th.start()
                th.join()
                if err:
                    raise err[0]
        t.get_main_view().register_cllbck('node-added', added)

        def push(pl):
            calls[0] += 1
            for h in hyps:
                h.push(pl, calls[0])

        def size_ok(m2):
            return m2.count_paths() <= 300

        def plan(r, where):
            """ what this call requests, given what the caller sees now:
            (callable, requests, priority) or None """
            k = r[0]
            if k == 'add':
                x, p, prio, colors = r[1:]
                if x in t_nodes():
                    return None
                key = ('add', x, p)
                o = nodes.get(x)
                if o is None:
                    o = nodes[x] = Nd(x, colors, 0)
                if p == x:
                    p = None
                return (lambda: t.add_node(o, parent_id=p, priority=prio),
                        [('add', x, p, id(o))], prio)
            if k == 'del':
                return (lambda: t.del_node(r[1], recursive=r[2]),
                        [('del', r[1], r[2])], 'normal')
            if k == 'data':
                if not t.has_node(r[1]):
                    return None

                def change():
                    n = t.get_node(r[1])
                    n.colors = set(r[2])
                    if len(r) > 4 and r[4]:
                        n.modified(priority=r[3])
                    else:
                        t.refresh_node(r[1], priority=r[3])
                return change, [('mod', r[1])], r[3]
            if k == 'all':
                return t.refresh_all, [('mod', x) for x in
                                       t.get_main_view().get_all_nodes()], \
                    'low'
            if k == 'par':
                x, p = r[1:]
                if x not in t_nodes() or p not in t_nodes() or x == p or \
                        p in w.m.nodes[x].parents:
                    return None
                return (lambda: t.add_parent(x, p), [('rel', p, x)], 'normal')
            x, p = r[1:]
            if k == 'moveroot':
                p = None
            if x not in t_nodes() or p == x or (
                    p is not None and p not in t_nodes()):
                return None
            n = t.get_node(x)
            ps = w.m.nodes[x].parents
            if k == 'child':
                if p in w.m.nodes[x].children:
                    return None
                return lambda: n.add_child(p), [('rel', x, p)], 'normal'
            if k == 'rempar':
                if p not in ps:
                    return None
                return lambda: n.remove_parent(p), [('brk', p, x)], 'normal'
            reqs = [('rel', p, x)] if p is not None and p not in ps else []
            reqs += [('brk', q_, x) for q_ in ps if q_ != p]
            return lambda: t.move_node(x, p), reqs, 'normal', x

        def t_nodes():
            return w.m.nodes

        def predict(pl):
            """ would applying everything pending stay small? """
            h = hyps[0].copy()
            if not h.push(pl, 0):
                return True
            for p in PRIO:
                for req in h.q[p]:
                    h.apply(req)
            return size_ok(h.m)

        def judge(op):
            root, st = real_state(t)
            mroot, mst = w.m.state()
            if st != mst or root != mroot:
                raise Violation('state', 'at %s: top %s nodes %s instead of '
                                '%s %s' % (op, root, st, mroot, mst))

        def idle_judge(op):
            for vs in w.views:
                every = t.get_main_view().get_all_nodes()
                check_members(w, vs, every)
                check_shape(w, vs)
                paths = set(chains(vs.obj))
                for m in vs.mirrors:
                    if m.error:
                        raise Violation(*m.error)
                    if set(m.rows) != paths:
                        raise Violation('rows', 'at %s' % (op,))

        def pending():
            return max(h.pending() for h in hyps)

        def in_thread(f):
            err = []

            def body():
                try:
                    f()
                except BaseException as e:      # noqa
                    err.append(e)
            if owner.th is not None and case['cfg']['foreign'] is True and \
                    len(case['ops']) % 2:
                # the main thread does not own the tree
                body()
            else:
                th = threading.Thread(target=body)
                th.start()
                th.join()
            if err:
                raise unexpected(err[0], 'a request from a thread')

        def iterate(k):
            """ k iterations, comparing after each """
            for _ in range(k):
                if not pending():
                    break
                # one iteration applies one or more requests, in order
                del mods[:]
                ctx.iteration(False)
                snapshot = real_state(t)
                new = {}
                best = None
                for h in hyps:
                    for g in h.explain(snapshot, mods, fired, calls):
                        if not isinstance(g, Waiting):
                            best = best or g
                            continue
                        new.setdefault(g.key(), g)
                        if len(new) > 200:
                            raise Void('too many answers')
                if not new:
                    w.m = best[0]
                    judge('an iteration')
                    raise Violation('refresh', 'requested refreshes %s, got '
                                    '%s' % (best[1], mods))
                fired.clear()
                hyps[:] = new.values()
                w.m = hyps[0].m

        out = None
        import sys
        for op in case['ops']:
            k = op[0]
            w.last = op
            stats[k] = stats.get(k, 0) + 1
            if k == 'main':
                pl = plan(op[1], 'main')
                if pl is None:
                    continue
                after = [h.copy() for h in hyps]
                for h in after:
                    for req in pl[1]:
                        h.apply(req)
                        if req[0] == 'rel' and h.m.state() == w.m.state():
                            break       # refused as a whole
                    else:
                        if len(pl) > 3:
                            h.m._forget(pl[3])
                if not all(size_ok(h.m) for h in after):
                    continue
                refuse = any(h.m.state() == w.m.state() for h in after)
                try:
                    owner(pl[0])
                except Exception as e:
                    if not pl[1] or pl[1][0][0] not in ('rel', 'add') or \
                            not refuse:
                        raise unexpected(e, op)
                # what waits unseen, such as a relation to a node to come, may
                # matter now
                real = real_state(t)
                hyps[:] = [h for h in after if h.m.state() == real] or after
                w.m = hyps[0].m
                judge(op)
                for x in list(fired):
                    for pl in fired.pop(x):
                        push(pl)
                if not pending():
                    idle_judge(op)
            elif k == 'hook':
                hooks[op[1]] = op[2]
            elif k == 'thread':
                for r in op[1]:
                    pl = plan(r, 'thread')
                    if pl is None:
                        continue
                    if not predict(pl):
                        continue
                    push(pl)
                    in_thread(pl[0])
                    judge('%s (not to be applied yet)' % (r,))
                if sum(bool(v) for v in hyps[0].q.values()) > 1:
                    mixed = True
            elif k == 'iter':
                iterate(op[1])
            elif k == 'race':
                # concurrent requests; let everything pending run first
                iterate(10 ** 6)
                del adds[:]
                groups = op[1]
                errs = []

                def body(names):
                    try:
                        for x in names:
                            t.add_node(Nd(x, 'r', 0))
                    except BaseException as e:      # noqa
                        errs.append(e)
                ths = [threading.Thread(target=body, args=(g_,))
                       for g_ in groups]
                for th in ths:
                    th.start()
                for th in ths:
                    # meanwhile the loop may run
                    while th.is_alive():
                        ctx.iteration(False)
                        th.join(0.0005)
                if errs:
                    raise unexpected(errs[0], op)
                n = sum(len(g_) for g_ in groups)
                for _ in range(20 * n + 20):
                    if not ctx.iteration(False):
                        break
                got = list(adds)
                if sorted(got) != sorted(x for g_ in groups for x in g_):
                    raise Violation('race', 'concurrent requests %s gave %s' %
                                    (groups, got))
                for g_ in groups:
                    if [x for x in got if x in g_] != g_:
                        raise Violation('race', 'requests of one thread %s '
                                        'were applied as %s' % (g_, got))
                for x in got:
                    w.m.add(x)
                judge(op)
        iterate(10 ** 6)
        for _ in range(50):
            if not ctx.iteration(False):
                break
        else:
            raise Violation('busy', 'the main loop never gets idle')
        judge('the end')
        idle_judge('the end')
        applied = max(h.applied for h in hyps)
        info['nontrivial'] = mixed and applied >= 4
        stats['applied'] = applied
        stats['refused'] = hyps[0].refused
