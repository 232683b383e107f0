"""C18-C23: the GTK model and widget. Gtk is imported lazily (setup)."""
import gen
from checks import Check
from checks_tree import lst, real_state
from checks_view import chains
from world import Violation, Void, World

G = {}
ASSUME = ['column functions read the node and the counts of the view, and '
          'have no side effects',
          'one thread; GTK 3 itself is trusted']


def load(display):
    import gi
    gi.require_version('Gtk', '3.0')
    gi.require_version('Gdk', '3.0')
    from gi.repository import Gtk, Gdk, GLib
    if display and not Gtk.init_check([])[0]:
        raise RuntimeError('no display')
    import liblarch_gtk
    import liblarch_gtk.treemodel
    from liblarch_gtk.treemodel import TreeModel
    G.update(Gtk=Gtk, Gdk=Gdk, GLib=GLib, lg=liblarch_gtk,
             TreeModel=TreeModel, TreeView=liblarch_gtk.TreeView,
             ASC=Gtk.SortType.ASCENDING, DESC=Gtk.SortType.DESCENDING)
    if display:
        class Widget(liblarch_gtk.TreeView):
            """ knows where the next drop lands """
            drop = None
            at = None

            def get_dest_row_at_pos(self, x, y):
                return self.drop if (x, y) == self.at else None
        G['Widget'] = Widget

        class Text(Gtk.CellRendererText):
            """ a renderer of the user's """
        G['Text'] = Text


def drain(limit=2000):
    """ Run the main loop until it is idle """
    ctx = G['GLib'].MainContext.default()
    for _ in range(limit):
        if not ctx.pending():
            return
        ctx.iteration(False)
    raise Violation('busy', 'the main loop does not become idle')


# ---- column functions -------------------------------------------------------
TYPES = {'text': str, 'val': int, 'maybe': str, 'kids': int, 'desc': int,
         'obj': object, 'flag': bool, 'real': float, 'key': str, 'uni': str}


def text(node):
    return ''.join(sorted(node.colors)) + str(node.val)


def column(kind, view):
    """ function of the node for one column """
    if kind == 'text':
        return text
    if kind == 'val':
        return lambda n: n.val
    if kind == 'maybe':
        return lambda n: None if n.val % 2 else 'v%d' % n.val
    if kind == 'kids':
        return lambda n: view.node_n_children(n.get_id())
    if kind == 'desc':
        return lambda n: view.node_n_children(n.get_id(), recursive=True)
    if kind == 'obj':
        return lambda n: tuple(sorted(n.colors)) or None
    if kind == 'flag':
        return lambda n: 'r' in n.colors
    if kind == 'real':
        return lambda n: n.val / 2.0
    if kind == 'key':
        return lambda n: 'k%02d' % n.val
    if kind == 'uni':
        return lambda n: u'\u65e5<&%s' % n.val
    raise KeyError(kind)


def walk(model):
    """ [(liblarch path, iter)] in row order """
    out = []

    def go(it, pre):
        while it:
            p = pre + (model.get_value(it, 0),)
            out.append((p, it))
            if len(out) > 5000:
                raise Violation('endless', 'more than 5000 rows')
            go(model.iter_children(it), p)
            it = model.iter_next(it)
    go(model.get_iter_first(), ())
    return out


class Shown(object):
    """ a connected model and what its columns are made of """

    def __init__(self, model, view, kinds):
        self.model, self.view, self.kinds = model, view, kinds
        self.unsorted = True        # never sorted until now

    def check(self, what):
        rows = walk(self.model)
        paths = [p for p, _ in rows]
        exp = set(chains(self.view))
        if len(paths) != len(set(paths)):
            raise Violation('dup-row', 'after %s: a row is there twice: %s' % (
                what, sorted(p for p in paths if paths.count(p) > 1)))
        if set(paths) != exp:
            raise Violation('rows', 'after %s: rows too many %s, missing %s' % (
                what, sorted(set(paths) - exp), sorted(exp - set(paths))))
        if self.unsorted:
            kids = {}
            for p in paths:
                kids.setdefault(p[:-1], []).append(p[-1])
            for p in kids:
                want = list(self.view.node_all_children(p[-1] if p else None))
                if kids[p] != want:
                    raise Violation('row-order', 'after %s: rows %s below %s '
                                    'instead of %s' % (what, kids[p], p, want))
        for p, it in rows:
            node = self.view.get_node(p[-1])
            for i, kind in enumerate(self.kinds, 1):
                want = column(kind, self.view)(node)
                got = self.model.get_value(it, i)
                if got != want:
                    raise Violation('cell', 'after %s: row %s column %d (%s) '
                                    'holds %r instead of %r' % (
                                        what, p, i, kind, got, want))
        return rows

    def find(self, w, op):
        """ the row of every path """
        for p, it in walk(self.model):
            got = w.real(lambda: self.model.my_get_iter(p))
            if got is None or self.model.get_path(got).compare(
                    self.model.get_path(it)):
                raise Violation('find', 'the row of %s is %s' % (
                    p, got and self.model.get_path(got)))

    def print(self, w, op):
        """ the printed rows """
        import io
        import sys
        rows = [p for p, _ in walk(self.model)]
        if any('\n' in p[-1] for p in rows):
            return
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            w.real(self.model.print_tree)
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = out
        lines = text.split('\n')
        want = ['=>' * (len(p) - 1) + ' ' + p[-1] for p in rows]
        at = [i for i, l in enumerate(lines) if l.startswith('+++')]
        got = lines[at[0] + 2:at[-1]] if len(at) == 2 else lines
        if got != want:
            raise Violation('print', '%s instead of %s' % (got, want))


class C18(Check):
    id = 'C18'
    crashy = True
    quick, thorough = 8000, 250000
    assumptions = ASSUME
    rule = ('histories of 1-60 structural, data and filter operations over '
            '2-24 ids and 1-3 views with GTK models connected at any time, '
            '1-5 typed columns from own data and displayed counts, sorted, '
            're-sorted and unsorted; all rows and cells compared after every '
            'operation; non-trivial: rows were removed and added while a '
            'model was connected and some node had two rows')
    weights = gen.weights(gen.STRUCT, gen.PRE, gen.DATA, gen.FILT, view=0.5,
                          multi=0.5, enp=0.5, enc=0.5)

    def setup(self):
        load(False)

    def gen(self, rng, tier):
        c = gen.history(rng, self.weights)
        nv = max(1, len(c['cfg']['views']))
        ops = c['ops']
        for i in range(nv):
            if rng.random() < 0.9:
                pos = 0 if rng.random() < 0.4 else rng.randint(0, len(ops))
                for k in range(rng.choice([1, 1, 1, 2])):
                    if k:
                        pos = rng.randint(0, len(ops))
                    kinds = rng.sample(sorted(TYPES), rng.randint(1, 5))
                    sort = None
                    if rng.random() < 0.4:
                        sort = [rng.randint(0, len(kinds)), rng.random() < 0.5]
                    ops.insert(pos, ['model', i, kinds, sort])
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            ops.insert(rng.randint(0, len(ops)), rng.choice([
                ['sort', rng.randint(0, 2), rng.randint(0, 5),
                 rng.random() < 0.5],
                ['unsort', rng.randint(0, 2)], ['again', rng.randint(0, 2)],
                ['find', rng.randint(0, 2)], ['print', rng.randint(0, 2)],
                ['setcol', rng.randint(0, 2), rng.randint(1, 6),
                 rng.choice(sorted(TYPES))]]))
        return c

    def run(self, case, info):
        G_ = G
        w = World(case['cfg'], mirrors=False)
        info['stats'] = w.stats
        ms = []
        two = False
        plus = minus = 0
        last = {}
        for op in case['ops']:
            w.last = op
            if op[0] == 'model':
                vs = w.view(op[1])
                if vs is None or len(ms) > 5:
                    continue
                types = [[TYPES[k], column(k, vs.obj)] for k in op[2]]
                m = G_['TreeModel'](vs.obj, types)
                if op[3]:
                    if op[3][0] and TYPES[op[2][op[3][0] - 1]] is object:
                        op = op[:3] + [[0, op[3][1]]]
                    m.set_sort_column_id(op[3][0], G_[
                        'DESC' if op[3][1] else 'ASC'])
                w.real(m.connect_model)
                ms.append(Shown(m, vs.obj, list(op[2])))
                ms[-1].unsorted = not op[3]
                w.bump('model')
            elif op[0] in ('sort', 'unsort', 'setcol', 'again', 'find',
                           'print'):
                if not ms:
                    continue
                s = ms[op[1] % len(ms)]
                if op[0] in ('find', 'print'):
                    getattr(s, op[0])(w, op)
                    w.bump(op[0])
                    continue
                if op[0] == 'again':
                    # connecting a connected model changes nothing
                    w.real(s.model.connect_model)
                    s.check(op)
                    continue
                s.unsorted = s.unsorted and op[0] == 'setcol'
                if op[0] == 'unsort':
                    s.model.set_sort_column_id(-2, G_['ASC'])
                elif op[0] == 'sort':
                    k = op[2] % (len(s.kinds) + 1)
                    if k and TYPES[s.kinds[k - 1]] is object:
                        continue
                    s.model.set_sort_column_id(k, G_[
                        'DESC' if op[3] else 'ASC'])
                else:
                    k = op[2]
                    if k <= len(s.kinds):
                        if TYPES[op[3]] is not TYPES[s.kinds[k - 1]]:
                            continue
                        s.kinds[k - 1] = op[3]
                    r = w.real(lambda: s.model.set_column_function(
                        k, column(op[3], s.view)))
                    if bool(r) != (k <= len(s.kinds)):
                        raise Violation('setcol', 'set_column_function of '
                                        'column %d returned %r' % (k, r))
                    w.real(w.t.refresh_all)
                w.bump(op[0])
            else:
                w.step(op)
            for s in ms:
                rows = {p for p, _ in s.check(op)}
                ids = [p[-1] for p in rows]
                two = two or len(ids) != len(set(ids))
                old = last.get(id(s), set())
                plus += len(rows - old)
                minus += len(old - rows)
                last[id(s)] = rows
        w.bump('rows_added', plus)
        w.bump('rows_removed', minus)
        info['nontrivial'] = bool(two and plus and minus)


# ---- widgets ----------------------------------------------------------------
class WidgetCheck(Check):
    display = True
    crashy = True
    assumptions = ASSUME + ['the widget is not shown on a screen; events of '
                            'the user are made by calls']

    def setup(self):
        load(True)

    def simplify(self, case):
        for c in Check.simplify(self, case):
            yield c
        cols = case.get('cfg', {}).get('cols')
        if cols and len(cols) > 1:
            for i in range(len(cols)):
                yield dict(case, cfg=dict(case['cfg'],
                                          cols=cols[:i] + cols[i + 1:]))

    def run(self, case, info):
        self.tvs = []
        try:
            self.go(case, info)
        finally:
            for tv in self.tvs:
                tv.destroy()
            for _ in range(50):
                if not G['GLib'].MainContext.default().iteration(False):
                    break


CMP = {
    # name -> function of two nodes and the direction
    'val': lambda a, b, o: (a.val > b.val) - (a.val < b.val),
    'ncol': lambda a, b, o: ((len(a.colors), a.val) > (len(b.colors), b.val)) -
    ((len(a.colors), a.val) < (len(b.colors), b.val)),
    'rev': lambda a, b, o: 5 * (b.val - a.val),
    # red ones first, whatever the direction
    'redtop': lambda a, b, o: _redtop(a, b, o),
    'id': lambda a, b, o: (a.get_id() > b.get_id()) - (a.get_id() < b.get_id()),
}


def _redtop(a, b, o):
    ra, rb = 'r' in a.colors, 'r' in b.colors
    if ra != rb:
        s = -1 if ra else 1
        return s if o == G['ASC'] else -s
    return (a.val > b.val) - (a.val < b.val)


class C19(WidgetCheck):
    id = 'C19'
    quick, thorough = 8000, 120000
    assumptions = WidgetCheck.assumptions + [
        'text columns compare plain ASCII; comparison functions depend on the '
        'two nodes and the direction only; one node changes at a time']
    rule = ('histories of 1-60 structural, data, filter and sort-column '
            'operations on a widget with 2-4 columns (default comparison of '
            'text, numbers and derived counts, or custom functions); order of '
            'all siblings checked after every operation; non-trivial: three '
            'or more siblings while sorted, the sorting was switched or '
            'reversed, and data changed')
    weights = gen.weights(gen.STRUCT, gen.DATA, gen.FILT, sort=7, click=2,
                          enp=0.3)
    NAMES = ['c0', 'title', 'b', u'\xe9', 'sort me', 'added']

    def gen(self, rng, tier):
        wts = dict(self.weights)
        s, k = wts.pop('sort'), wts.pop('click')
        aimed = rng.random() < 0.4
        if aimed:
            # many siblings whose changes make parents appear and disappear
            wts = {'add': 4, 'addp': 3, 'addpar': 8, 'move': 2, 'rempar': 2,
                   'data': 40, 'apply': 2, 'unapply': 1}
            c = gen.history(rng, wts, 'deep', (1, 1), rng.randint(4, 9))
        else:
            c = gen.history(rng, wts, nviews=(1, 1))
        n = rng.randint(2, 4)
        names = rng.sample(self.NAMES, n)
        cols = []
        for i in range(n):
            d = {'name': names[i], 'kind': rng.choice(
                ['key', 'val', 'kids', 'desc', 'real', 'maybe', 'key'])}
            r = rng.random()
            if r < 0.45:
                d['func'] = rng.choice(sorted(CMP))
            elif r < 0.75:
                d['sorting'] = rng.choice(names)
            cols.append(d)
        if aimed:
            cols[0].pop('sorting', None)
            cols[0]['func'] = rng.choice(['ncol', 'redtop', 'val'])
        if rng.random() < 0.3:
            for d in cols:
                if rng.random() < 0.4:
                    d['hidden'] = True
        c['cfg']['cols'] = cols
        ops = c['ops']
        for op in ops:
            # rows are sorted one by one: refresh the one which changed
            if op[0] == 'data' and op[4] == 3:
                op[4] = 0
        at = rng.randint(0, max(0, len(ops) // 2))
        ops.insert(rng.choice([0, at, at]), ['widget'])
        if aimed:
            ops.insert(ops.index(['widget']) + 1,
                       ['sort', 0, rng.random() < 0.4, False])
            if rng.random() < 0.7:
                return c
        for _ in range(rng.randint(1, 6)):
            pos = rng.randint(ops.index(['widget']) + 1, len(ops))
            if rng.random() < 0.75:
                ops.insert(pos, ['sort', rng.randint(0, n - 1),
                                 rng.random() < 0.5, rng.random() < 0.3])
            else:
                ops.insert(pos, ['click', rng.randint(0, n - 1)])
        return c

    def go(self, case, info):
        Gtk = G['Gtk']
        w = World(case['cfg'], mirrors=False)
        info['stats'] = w.stats
        cols = case['cfg']['cols']
        names = [c['name'] for c in cols]
        tv = None
        bad = []
        three = switched = changed = False
        state = {'cur': None}       # (column index, descending)
        report = None

        def watch(i, f):
            def compare(a, b, order):
                for n in (a, b):
                    if not hasattr(n, 'colors'):
                        bad.append('comparison got %r' % (n,))
                if order not in (G['ASC'], G['DESC']):
                    bad.append('comparison got the direction %r' % (order,))
                elif state['cur'] and state['cur'][0] == i and \
                        order != (G['DESC'] if state['cur'][1] else G['ASC']):
                    bad.append('comparison got the direction %r while %r' % (
                        order, state['cur']))
                return f(a, b, order)
            return compare

        for op in case['ops']:
            w.last = op
            if op[0] == 'widget':
                if tv is not None or not w.views:
                    continue
                view = w.views[0].obj
                desc = {}
                for i, c in enumerate(cols):
                    d = {'value': [TYPES[c['kind']], column(c['kind'], view)],
                         'order': i}
                    if 'renderer' not in d:
                        d['renderer'] = ['text', Gtk.CellRendererText()]
                    if 'func' in c:
                        d['sorting_func'] = watch(i, CMP[c['func']])
                    elif c.get('sorting') in names:
                        d['sorting'] = c['sorting']
                    if c.get('hidden'):
                        d['visible'] = False
                    desc[c['name']] = d
                tv = w.real(lambda: G['TreeView'](view, desc))
                self.tvs.append(tv)
                model = tv.get_model()
                srt = [c['sorting'] for i, c in enumerate(cols)
                       if 'sorting' in desc[c['name']]]
                report = (srt[-1] if srt else None, G['ASC'])
            elif op[0] == 'sort':
                if tv is None:
                    continue
                i = op[1] % len(cols)
                state['cur'] = None
                if len(op) > 3 and op[3] and not op[2]:
                    w.real(lambda: tv.set_sort_column(names[i]))
                else:
                    w.real(lambda: tv.set_sort_column(
                        names[i], G['DESC'] if op[2] else G['ASC']))
                state['cur'] = (i, op[2])
                report = (names[i], G['DESC'] if op[2] else G['ASC'])
                switched = True
                w.bump('sort')
            elif op[0] == 'click':
                if tv is None:
                    continue
                i = op[1] % len(cols)
                c = cols[i]
                target = (i if 'func' in c else
                          names.index(c['sorting'])
                          if c.get('sorting') in names else None)
                if target is None or c.get('hidden'):
                    continue
                old, state['cur'] = state['cur'], None
                tv.get_column(i).clicked()
                num, order = model.get_sort_column_id()
                # a click sorts by that column, another one reverses it
                want = (target, not old[1] if old and old[0] == target
                        else False)
                got = (num - 1 if num is not None else None,
                       order == G['DESC'])
                if got != want:
                    raise Violation('click', 'a click on the header of column '
                                    '%d sorts by %s instead of %s' % (
                                        i, got, want))
                state['cur'] = want
                report = None       # of choices made through the interface
                w.bump('click')
            else:
                r = w.step(op)
                changed = changed or (op[0] == 'data' and r == 'ok' and
                                      state['cur'] is not None)
            if bad:
                raise Violation('comparison', 'during %s: %s' % (op, bad[0]))
            if tv is None:
                continue
            if report and tuple(tv.get_sort_column()) != report:
                raise Violation('report', 'after %s: get_sort_column %s '
                                'instead of %s' % (op, tv.get_sort_column(),
                                                   report))
            if state['cur'] is not None:
                three = self.sorted(w, op, model, view, cols, state['cur']) \
                    or three
        info['nontrivial'] = bool(three and switched and changed)

    def sorted(self, w, op, model, view, cols, cur):
        i, down = cur
        c = cols[i]
        order = G['DESC'] if down else G['ASC']
        three = False

        def value(it):
            if 'func' in c:
                return view.get_node(model.get_value(it, 0))
            v = column(c['kind'], view)(view.get_node(model.get_value(it, 0)))
            return '' if v is None and c['kind'] == 'maybe' else v

        def compare(a, b):
            r = (CMP[c['func']](a, b, order) if 'func' in c else
                 (a > b) - (a < b))
            return -r if down else r

        stack = [None]
        while stack:
            it = model.iter_children(stack.pop())
            prev = None
            n = 0
            while it:
                n += 1
                cur_v = value(it)
                if prev is not None and compare(prev[0], cur_v) > 0:
                    raise Violation('order', 'after %s: %r comes before %r '
                                    'with column %s %s' % (
                                        op, prev[1], model.get_value(it, 0),
                                        c, 'down' if down else 'up'))
                prev = (cur_v, model.get_value(it, 0))
                stack.append(it)
                it = model.iter_next(it)
            three = three or n >= 3
        return three


def ids_plain(c):
    """ ids which survive the quote stripping of collapse_node """
    ids = set()
    for op in c['ops']:
        for a in op[1:]:
            if isinstance(a, str):
                ids.add(a)
    return all(i == i.strip("'") for i in ids)


class C20(WidgetCheck):
    id = 'C20'
    quick, thorough = 8000, 100000
    assumptions = WidgetCheck.assumptions + [
        'ids do not begin or end with a quote (collapse_node strips them)',
        'rows below a row that was closed since they were inserted are exempt '
        '(GTK forgets their state)']
    rule = ('histories of structural, data, filter, collapse and expand '
            'operations with main-loop iterations in between; state of every '
            'row with children compared with the model of collapsed nodes '
            'when the main loop is idle; non-trivial: a collapsed row with '
            'children and an open row were both seen, and rows were added '
            'after the first request')
    weights = gen.weights(gen.STRUCT, gen.DATA, gen.FILT)

    def gen(self, rng, tier):
        while True:
            c = gen.history(rng, self.weights, nviews=(1, 2))
            if ids_plain(c):
                break
        ops = c['ops']
        ids = sorted({op[1] for op in ops if op[0] == 'add'}) or ['n0']
        start = rng.choice([0, 0, rng.randint(0, len(ops))])
        ops.insert(start, ['widget', 0])
        if rng.random() < 0.3:
            ops.insert(rng.randint(start + 1, len(ops)),
                       ['widget', rng.randint(0, 1)])
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            x = rng.choice(ids)
            if r < 0.55:
                o = ['collapse', x, rng.randint(0, 1)]
            elif r < 0.85:
                o = ['expand', x, rng.randint(0, 1)]
            else:
                o = ['toggle', rng.randint(0, 9), rng.randint(0, 1)]
            ops.insert(rng.randint(start + 1, len(ops)), o)
        c['cfg']['lazy'] = rng.choice([0, 0, 0, 0.5, 0.9])
        for _ in range(rng.randint(1, 4) if c['cfg']['lazy'] else 0):
            ops.insert(rng.randint(start + 1, len(ops)), ['idle'])
        c['cfg']['sort'] = rng.random() < 0.3
        return c

    def go(self, case, info):
        w = World(case['cfg'], mirrors=False)
        info['stats'] = w.stats
        lazy = bool(case['cfg'].get('lazy'))
        ws = []
        for op in case['ops'] + [['idle']]:
            w.last = op
            if op[0] == 'widget':
                if len(ws) > 1 or w.view(op[1]) is None:
                    continue
                ws.append(Watched(w, w.view(op[1]).obj,
                                  case['cfg'].get('sort')))
                self.tvs.append(ws[-1].tv)
            elif op[0] in ('collapse', 'expand'):
                if not ws:
                    continue
                ws[op[2] % len(ws)].ask(op[0], op[1])
                w.bump(op[0])
            elif op[0] == 'toggle':
                if ws and ws[op[2] % len(ws)].toggle(op[1]):
                    w.bump('toggle')
            elif op[0] != 'idle':
                w.step(op)
            for x in ws:
                x.settle()
                x.look(False)
            if ws and (op[0] == 'idle' or not lazy):
                drain()
                for x in ws:
                    x.look(True)
            for x in ws:
                x.signals()
        w.bump('signals', sum(len(x.nodesig) for x in ws))
        w.bump('two_widgets', len(ws) > 1)
        info['nontrivial'] = any(
            x.seen_closed and x.seen_open and x.grown for x in ws)


class Watched(object):
    """ a widget, and the model of its collapsed nodes """

    def __init__(self, w, view, sort):
        self.w, self.view = w, view
        self.K = set()
        self.waiting = {}            # id -> requests, in order
        self.tainted, self.known = set(), set()
        self.rowsig, self.nodesig = [], []
        self.seen_closed = self.seen_open = self.grown = self.asked = False
        self.tv = tv = w.real(lambda: G['TreeView'](view, {
            'v': {'value': [int, lambda n: n.val]},
            'id': {'value': [str, lambda n: n.get_id()]}}))
        if sort:
            tv.set_sort_column('v')
        tv.connect('row-expanded', lambda t, i, p: self.rowsig.append(
            ('expanded', self.llpath(p))))
        tv.connect('row-collapsed', lambda t, i, p: self.rowsig.append(
            ('collapsed', self.llpath(p))))
        tv.connect('node-expanded', lambda t, p: self.nodesig.append(
            ('expanded', p)))
        tv.connect('node-collapsed', lambda t, p: self.nodesig.append(
            ('collapsed', p)))

    def llpath(self, path):
        out = ()
        ind = path.get_indices()
        model = self.tv.get_model()
        for i in range(1, len(ind) + 1):
            it = model.get_iter(G['Gtk'].TreePath(ind[:i]))
            out += (model.get_value(it, 0),)
        return out

    def request(self, x, what):
        if what == 'collapse':
            self.K.add(x)
        else:
            self.K.discard(x)

    def settle(self):
        """ model: waiting requests of nodes which are displayed now """
        for x in list(self.waiting):
            if self.view.is_displayed(x):
                for what in self.waiting.pop(x):
                    self.request(x, what)

    def ask(self, what, x):
        f = self.tv.collapse_node if what == 'collapse' else \
            self.tv.expand_node
        self.settle()
        self.w.real(lambda: f(('whatever', x) if len(x) % 2 else (x,)))
        if self.view.is_displayed(x):
            self.request(x, what)
        else:
            self.waiting.setdefault(x, []).append(what)
        self.asked = True

    def toggle(self, i):
        """ the user opens or closes a row """
        model = self.tv.get_model()
        rows = [(p, it) for p, it in walk(model) if model.iter_has_child(it)]
        if not rows:
            return False
        p, it = rows[i % len(rows)]
        path = model.get_path(it)
        if self.tv.row_expanded(path):
            self.tv.collapse_row(path)
        else:
            self.tv.expand_row(path, False)
        self.tainted.add(p)
        return True

    def look(self, check):
        """ note which rows were below a closed row; compare """
        model, w = self.tv.get_model(), self.w
        now = set()
        todo = [(None, (), True)]
        while todo:
            parent, pre, isopen = todo.pop()
            it = model.iter_children(parent)
            while it:
                p = pre + (model.get_value(it, 0),)
                now.add(p)
                if not isopen:
                    self.tainted.add(p)
                path = model.get_path(it)
                exp = self.tv.row_expanded(path)
                has = model.iter_has_child(it)
                if has and check:
                    if p[-1] in self.K:
                        self.seen_closed = True
                        if exp and p not in self.tainted:
                            raise Violation(
                                'open', 'after %s: row %s is open though '
                                'its node was collapsed' % (w.last, p))
                    elif p not in self.tainted and not exp:
                        raise Violation(
                            'closed', 'after %s: row %s is closed though '
                            'its node was not collapsed' % (w.last, p))
                    elif exp:
                        self.seen_open = True
                todo.append((it, p, isopen and (exp or not has)))
                it = model.iter_next(it)
        self.grown = self.grown or (self.asked and bool(now - self.known))
        self.tainted.intersection_update(now)
        self.known.clear()
        self.known.update(now)

    def signals(self):
        rowsig, nodesig = self.rowsig, self.nodesig
        if [k for k, _ in rowsig] != [k for k, _ in nodesig] or any(
                b[1] != a[1] and b[1] != str(a[1])
                for a, b in zip(rowsig, nodesig)):
            raise Violation('signals', 'after %s: rows %s, announced %s' % (
                self.w.last, rowsig[-3:], nodesig[-3:]))


class Drag(object):
    """ Emits the signals of a drag as GTK does (not as PyGObject does: it
    gives the handlers copies of the selection) """

    def __init__(self):
        import ctypes
        self.ct = ctypes
        self.emit_by_name = ctypes.CDLL(
            'libgobject-2.0.so.0').g_signal_emit_by_name
        Gtk, Gdk = G['Gtk'], G['Gdk']
        self.ctx = Gdk.drag_begin(Gdk.get_default_root_window(), [])
        board = Gtk.Clipboard.get(Gdk.SELECTION_CLIPBOARD)
        board.set_text('x', -1)
        self.blank = board.wait_for_contents(
            Gdk.Atom.intern('UTF8_STRING', False))

    def ptr(self, obj):
        return self.ct.c_void_p(hash(obj) % 2 ** 64)

    def get(self, tv, info):
        sel = self.blank.copy()
        sel.set(sel.get_target(), 8, b'')
        self.emit_by_name(self.ptr(tv), b'drag-data-get', self.ptr(self.ctx),
                          self.ptr(sel), self.ct.c_uint(info),
                          self.ct.c_uint(0))
        return sel

    def receive(self, tv, x, y, sel, info):
        self.emit_by_name(self.ptr(tv), b'drag-data-received',
                          self.ptr(self.ctx), self.ct.c_int(x),
                          self.ct.c_int(y), self.ptr(sel),
                          self.ct.c_uint(info), self.ct.c_uint(0))


SOURCES = ['zz', 'tags', 'a', 'source1', u'\xe9', 'b/c', 'Z', 'source10']


class C21(WidgetCheck):
    id = 'C21'
    quick, thorough = 6000, 120000
    assumptions = WidgetCheck.assumptions + [
        'the signals of a drag are emitted with a given drop position instead '
        'of X events']
    rule = ('generated hierarchies and histories with 1-6 drops: any '
            'selection of rows (several, nested, several occurrences), any '
            'drop row and position or none, inside the widget or from another '
            'one; the whole hierarchy compared with the model after each; '
            'non-trivial: a drop of two or more rows moved a node, and the '
            'drop had a destination')
    weights = gen.weights(gen.STRUCT, gen.DATA, gen.FILT, enp=0.5, enc=0.5)

    def gen(self, rng, tier):
        c = gen.history(rng, self.weights, nviews=(1, 2))
        ops = c['ops']
        if len(c['cfg']['views']) == 1:
            c['cfg']['views'].append({})
        c['cfg']['sort'] = rng.choice([None, None, False, True])
        c['cfg']['ext'] = rng.sample(SOURCES, rng.choice([0, 1, 1, 2, 3, 4]))
        start = rng.choice([0, len(ops) // 2])
        for _ in range(rng.randint(1, 6)):
            rows = [rng.randint(0, 30) for _ in range(rng.choice(
                [0, 1, 1, 2, 2, 3, 5]))]
            drop = [rng.randint(0, 30), rng.randint(0, 3)]
            if rng.random() < 0.12:
                drop = None
            o = ['drop', rows, drop]
            if rng.random() < 0.25:
                o = ['ext', rows, drop, rng.choice(c['cfg']['ext'])
                     if c['cfg']['ext'] and rng.random() < 0.9 else 'unknown']
            ops.insert(rng.randint(start, len(ops)), o)
        if rng.random() < 0.15:
            # named again
            ops.insert(rng.randint(0, len(ops)), ['name', rng.choice(
                ['internal', 'again', u'\xe8'])])
        return c

    def go(self, case, info):
        Gtk = G['Gtk']
        w = World(case['cfg'], mirrors=False)
        info['stats'] = w.stats
        self.real = None
        if len(w.views) < 2:
            return
        POS = [Gtk.TreeViewDropPosition.BEFORE, Gtk.TreeViewDropPosition.AFTER,
               Gtk.TreeViewDropPosition.INTO_OR_BEFORE,
               Gtk.TreeViewDropPosition.INTO_OR_AFTER]

        calls = []
        Widget = G['Widget']

        def widget(view):
            tv = w.real(lambda: Widget(view, {
                'v': {'value': [int, lambda n: n.val]},
                'id': {'value': [str, lambda n: n.get_id()]}}))
            self.tvs.append(tv)
            if case['cfg'].get('sort') is not None:
                tv.set_sort_column('v', G['DESC'] if case['cfg']['sort']
                                   else G['ASC'])
            tv.set_multiple_selection(True)
            return tv
        tv = widget(w.views[0].obj)
        other = widget(w.views[1].obj)
        name = ['internal']
        w.real(lambda: tv.set_dnd_name('internal'))
        w.real(lambda: other.set_dnd_name('other'))
        ext = case['cfg']['ext']
        for s in ext:
            w.real(lambda: tv.set_dnd_external(
                s, lambda a, b, s=s: calls.append((s, a, b))))

        def number(source):
            """ what GTK passes for a drag of this kind """
            targets = tv.drag_dest_get_target_list()
            ok, n = targets.find(G['Gdk'].Atom.intern(source, False)) \
                if targets is not None else (False, 0)
            if ok != (source in ext or source == name[0]):
                raise Violation('target', '%r is%s a kind of drop' % (
                    source, '' if ok else ' not'))
            if source == name[0] and n:
                raise Violation('target', 'the internal kind is %d' % n)
            return n if ok else 99
        if 'drag' not in G:
            G['drag'] = Drag()
        drag = G['drag']
        good = moved = False
        old_src = Gtk.drag_get_source_widget
        try:
            Gtk.drag_get_source_widget = lambda ctx: other
            for op in case['ops']:
                w.last = op
                if op[0] == 'name':
                    name[0] = op[1]
                    w.real(lambda: tv.set_dnd_name(op[1]))
                    continue
                if op[0] not in ('drop', 'ext'):
                    w.step(op)
                    continue
                src = tv if op[0] == 'drop' else other
                rows = walk(src.get_model())
                sel = src.get_selection()
                sel.unselect_all()
                src.expand_all()
                for i in op[1]:
                    if rows:
                        sel.select_iter(rows[i % len(rows)][1])
                # what is selected, in row order
                ids = [p[-1] for p, it in rows if sel.iter_is_selected(it)]
                data = drag.get(src, number(name[0]) if src is tv
                                else number(op[3]))
                targets = walk(tv.get_model())
                tv.drop, dest = None, None
                tv.at = 3 + len(ids), 17
                if op[2] and targets:
                    p, it = targets[op[2][0] % len(targets)]
                    pos = op[2][1]
                    tv.drop = (tv.get_model().get_path(it), POS[pos])
                    dest = p[-1] if pos >= 2 else (
                        p[-2] if len(p) > 1 else None)
                del calls[:]
                before = w.m.state()
                if real_state(w.t) != before:
                    raise Void('the hierarchy was wrong before the drop')
                if op[0] == 'drop':
                    m2 = w.m.copy()
                    from model import Refused
                    for x in ids:
                        m3 = m2.copy()
                        try:
                            m3.move(x, dest)
                            m2 = m3
                        except Refused:
                            w.bump('refused')
                    if m2.count_paths() > 400:
                        continue
                    drag.receive(tv, tv.at[0], tv.at[1], data, 0)
                    w.m = m2
                    exp = []
                else:
                    drag.receive(tv, tv.at[0], tv.at[1], data, number(op[3]))
                    exp = [(op[3], x, dest) for x in ids] if dest is not None \
                        and op[3] in ext else []
                w.bump(op[0])
                if calls != exp:
                    raise Violation('external', 'after %s: called %s instead '
                                    'of %s' % (op, calls, exp))
                got, want = real_state(w.t), w.m.state()
                if got != want:
                    raise Violation('drop', 'after %s of %s on %r: %s instead '
                                    'of %s' % (op, ids, dest, got, want))
                if len(ids) > 1 and dest is not None:
                    good = good or before != want or op[0] == 'ext'
        finally:
            Gtk.drag_get_source_widget = old_src
        info['nontrivial'] = bool(good)


class C22(WidgetCheck):
    id = 'C22'
    quick, thorough = 6000, 120000
    assumptions = WidgetCheck.assumptions + [
        'orders are distinct; cells sharing a column declare the same '
        'visibility and resizability and at most one title']
    rule = ('generated descriptions of 1-14 columns (orders, titles, '
            'visibility, shared columns, renderers, sorting) and histories '
            'with selections; columns, cells and selected nodes compared '
            'after every operation; non-trivial: two or more columns not '
            'declared in their order, and two or more rows selected at once '
            'or a selection survived a change')
    weights = gen.weights(gen.STRUCT, gen.DATA, gen.FILT)
    KINDS = ['text', 'val', 'maybe', 'kids', 'desc', 'key', 'uni', 'flag']

    def gen(self, rng, tier):
        c = gen.history(rng, self.weights, nviews=(1, 2))
        c['cfg']['cols'] = self.gen_cols(rng)
        ops = c['ops']
        start = rng.choice([0, 0, len(ops) // 2])
        ops.insert(start, ['widget', 0, 'cols'])
        if rng.random() < 0.8:
            ops.insert(start + 1, ['multi_sel', 0, True])
        if rng.random() < 0.25:
            c['cfg']['cols2'] = self.gen_cols(rng)
            ops.insert(rng.randint(start + 1, len(ops)),
                       ['widget', rng.randint(0, 1), 'cols2'])
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            k = rng.randint(0, 1)
            if r < 0.65:
                o = ['select', k, [rng.randint(0, 30) for _ in range(
                    rng.choice([0, 1, 2, 3, 6]))], rng.random() < 0.5]
            elif r < 0.75:
                o = ['multi_sel', k, rng.random() < 0.6]
            elif r < 0.85:
                o = ['visible', k, rng.randint(0, 11), rng.random() < 0.5]
            elif r < 0.92:
                o = ['func', k, rng.randint(0, 11), rng.choice(self.KINDS)]
            elif r < 0.95:
                o = ['sort', k, rng.randint(0, 11), rng.random() < 0.5]
            else:
                o = [rng.choice(['resizable', 'expander', 'search']), k,
                     rng.randint(0, 11), rng.random() < 0.5]
            ops.insert(rng.randint(start + 1, len(ops)), o)
        return c

    def gen_cols(self, rng):
        n = rng.randint(1, 6) if rng.random() < 0.95 else rng.randint(7, 14)
        names = rng.sample(['c%d' % i for i in range(12)] +
                           ['title', u'\xe9t\xe9', 'a b', 'bg'], n)
        orders = rng.sample(range(-3, 16), n)
        cols = []
        for i in range(n):
            d = {'name': names[i], 'kind': rng.choice(self.KINDS)}
            if rng.random() < 0.75:
                d['order'] = orders[i]
            if rng.random() < 0.6:
                d['title'] = rng.choice(['', 'Title', u'\u65e5', 'x_y', '<b>'])
            if rng.random() < 0.5:
                d['visible'] = rng.random() < 0.5
            if rng.random() < 0.25:
                d['new'] = False
            elif rng.random() < 0.3:
                d['new'] = True
            if rng.random() < 0.7:
                d['rend'] = rng.choice(['text', 'markup', 'text'])
            if rng.random() < 0.3:
                d['expandable'] = rng.random() < 0.5
            if rng.random() < 0.3:
                d['resizable'] = rng.random() < 0.5
            if rng.random() < 0.2:
                d['sorting'] = True
            cols.append(d)
        return cols

    def go(self, case, info):
        Gtk = G['Gtk']
        w = World(case['cfg'], mirrors=False)
        info['stats'] = w.stats
        ws = []
        many = survived = mixed = False
        for op in case['ops']:
            w.last = op
            if op[0] == 'widget':
                if len(ws) > 1 or w.view(op[1]) is None or \
                        op[2] not in case['cfg']:
                    continue
                view = w.view(op[1]).obj
                spec = case['cfg'][op[2]]
                tv, groups, cols = self.build(w, spec, view)
                ws.append((tv, view, groups, cols))
                mixed = mixed or len(cols) > 1 and [
                    c['name'] for c in cols] != [c['name'] for c in spec]
            elif op[0] in ('multi_sel', 'select', 'visible', 'func', 'sort',
                           'resizable', 'expander', 'search'):
                if not ws:
                    continue
                tv, view, groups, cols = ws[op[1] % len(ws)]
                op = op[:1] + op[2:]
                sel = tv.get_selection()
                if op[0] == 'multi_sel':
                    w.real(lambda: tv.set_multiple_selection(op[1]))
                    want = Gtk.SelectionMode.MULTIPLE if op[1] else \
                        Gtk.SelectionMode.SINGLE
                    if sel.get_mode() != want:
                        raise Violation('mode', '%s' % sel.get_mode())
                elif op[0] == 'select':
                    tv.expand_all()
                    if op[2]:
                        sel.unselect_all()
                    rows = walk(tv.get_model())
                    pick = sorted({i % len(rows) for i in op[1]}
                                  if rows else ())
                    if sel.get_mode() == Gtk.SelectionMode.SINGLE:
                        pick = pick[-1:]
                    for i in pick:
                        if not sel.iter_is_selected(rows[i][1]):
                            sel.select_iter(rows[i][1])
                    # (in single mode GTK may keep the anchor row unselected)
                    if op[2] and rows and sel.get_mode() == \
                            Gtk.SelectionMode.MULTIPLE:
                        exp = [rows[i][0][-1] for i in pick]
                        got = lst(w.real(tv.get_selected_nodes), 'selected')
                        if got != exp:
                            raise Violation('selected', 'selected %s, '
                                            'reported %s' % (exp, got))
                elif op[0] == 'visible':
                    c = cols[op[1] % len(cols)]
                    w.real(lambda: tv.set_col_visible(c['name'], op[2]))
                    [g for g in groups if c in g['cells']][0]['visible'] = \
                        op[2]
                elif op[0] == 'resizable':
                    c = cols[op[1] % len(cols)]
                    w.real(lambda: tv.set_col_resizable(c['name'], op[2]))
                    [g for g in groups if c in g['cells']][0]['resizable'] = \
                        op[2]
                elif op[0] == 'expander':
                    c = cols[op[1] % len(cols)]
                    w.real(lambda: tv.set_expander_column(c['name']))
                    for g in groups:
                        g['expander'] = c in g['cells']
                elif op[0] == 'search':
                    c = cols[op[1] % len(cols)]
                    w.real(lambda: tv.set_main_search_column(c['name']))
                    for p, it in walk(tv.get_model()):
                        want = column(c['kind'], view)(view.get_node(p[-1]))
                        got = tv.get_model().get_value(
                            it, tv.get_search_column())
                        if got != want:
                            raise Violation('search', 'searching %r finds %r '
                                            'instead of %r' % (c['name'], got,
                                                               want))
                elif op[0] == 'sort':
                    c = cols[op[1] % len(cols)]
                    w.real(lambda: tv.set_sort_column(
                        c['name'], G['DESC'] if op[2] else G['ASC']))
                else:
                    i = op[1] % len(cols)
                    if TYPES[op[2]] is not TYPES[cols[i]['kind']] or (
                            op[2] == 'uni' and
                            cols[i].get('r', [0])[0] != 'text'):
                        continue
                    w.real(lambda: tv.get_model().set_column_function(
                        i + 1, column(op[2], view)))
                    cols[i]['kind'] = op[2]
                    w.real(w.t.refresh_all)
                w.bump(op[0])
            else:
                w.step(op)
            for tv, view, groups, cols in ws:
                n = self.check(w, tv, view, groups)
                many = many or n > 1
                survived = survived or (n and op[0] not in ('select',))
        info['nontrivial'] = bool(mixed and (many or survived))

    def build(self, w, spec, view):
        Gtk = G['Gtk']
        spec = [dict(c) for c in spec]
        cols = sorted(spec, key=lambda c: (c.get('order', 10 ** 6),
                                           spec.index(c)))
        groups = []
        for c in cols:
            if not groups or c.get('new', True):
                groups.append({'cells': [c], 'visible': c.get('visible', True),
                               'resizable': c.get('resizable', True),
                               'expand': c.get('expandable', False),
                               'title': c.get('title', '')})
            else:
                g = groups[-1]
                g['cells'].append(c)
                if 'visible' in g['cells'][0]:
                    c['visible'] = g['cells'][0]['visible']
                else:
                    c.pop('visible', None)
                c['resizable'] = g['resizable']
                if g['title']:
                    c.pop('title', None)
                elif c.get('title'):
                    g['title'] = c['title']
        desc = {}
        for c in spec:
            d = {'value': [TYPES[c['kind']], column(c['kind'], view)]}
            for k in ('order', 'title', 'visible', 'expandable', 'resizable'):
                if k in c:
                    d[k] = c[k]
            if 'new' in c:
                d['new_column'] = c['new']
            if 'rend' in c or TYPES[c['kind']] is not str:
                if TYPES[c['kind']] is bool:
                    c['r'] = ('active', Gtk.CellRendererToggle())
                else:
                    a = c.get('rend', 'text')
                    if TYPES[c['kind']] is not str or c['kind'] == 'uni':
                        a = 'text'
                    c['r'] = (a, Gtk.CellRendererText())
                d['renderer'] = list(c['r'])
            elif c['kind'] == 'uni':
                c['r'] = ('text', Gtk.CellRendererText())
                d['renderer'] = list(c['r'])
            if c.get('sorting'):
                d['sorting'] = c['name']
            desc[c['name']] = d
        tv = w.real(lambda: G['TreeView'](view, desc))
        self.tvs.append(tv)
        if sorted(tv.get_columns()) != sorted(c['name'] for c in cols):
            raise Violation('names', 'columns %s' % tv.get_columns())
        return tv, groups, cols

    def check(self, w, tv, view, groups):
        if tv.get_n_columns() != len(groups):
            raise Violation('columns', '%d columns instead of %d' % (
                tv.get_n_columns(), len(groups)))
        model = tv.get_model()
        rows = walk(model)
        for i, g in enumerate(groups):
            col = tv.get_column(i)
            names = [c['name'] for c in g['cells']]
            if (col.get_title() or '') != g['title']:
                raise Violation('title', 'column %s is called %r instead of '
                                '%r' % (names, col.get_title(), g['title']))
            if col.get_visible() != g['visible']:
                raise Violation('visible', 'after %s: column %s: %s' % (
                    w.last, names, col.get_visible()))
            if col.get_resizable() != g['resizable']:
                raise Violation('resizable', 'after %s: column %s: %s' % (
                    w.last, names, col.get_resizable()))
            if len(g['cells']) == 1 and col.get_expand() != g['expand']:
                raise Violation('expand', 'column %s: %s' % (
                    names, col.get_expand()))
            if g.get('expander') and tv.get_expander_column() is not col:
                raise Violation('expander', 'after %s: not column %s' % (
                    w.last, names))
            cells = col.get_cells()
            if len(cells) != len(g['cells']):
                raise Violation('cells', 'column %s has %d cells' % (
                    names, len(cells)))
            for j, c in enumerate(g['cells']):
                if 'r' in c and cells[j] is not c['r'][1]:
                    raise Violation('renderer', 'cell %d of column %s' % (
                        j, names))
            for p, it in rows:
                col.cell_set_cell_data(model, it, False, False)
                node = view.get_node(p[-1])
                for cell, c in zip(cells, g['cells']):
                    want = column(c['kind'], view)(node)
                    if isinstance(want, bool):
                        got = cell.get_property('active')
                    else:
                        got = cell.get_property('text') or ''
                        want = '' if want is None else str(want)
                    if got != want:
                        raise Violation('cell', 'after %s: row %s column %s '
                                        'shows %r instead of %r' % (
                                            w.last, p, c['name'], got, want))
        sel = tv.get_selection()
        exp = [p[-1] for p, it in rows if sel.iter_is_selected(it)]
        got = lst(w.real(tv.get_selected_nodes), 'get_selected_nodes')
        if got != exp:
            raise Violation('selected', 'after %s: selected %s, reported %s' %
                            (w.last, exp, got))
        return len(exp)


NAMED = {'black': (0, 0, 0), 'white': (255, 255, 255), 'red': (255, 0, 0),
         'blue': (0, 0, 255), 'yellow': (255, 255, 0), 'cyan': (0, 255, 255),
         'magenta': (255, 0, 255), 'navy': (0, 0, 128)}


def rgb(spec):
    """ components 0..1 of a colour specification """
    if spec in NAMED:
        return tuple(c / 255.0 for c in NAMED[spec])
    h = spec[1:]
    k = len(h) // 3
    return tuple(int(h[i * k:(i + 1) * k], 16) / float(16 ** k - 1)
                 for i in range(3))


def luminance(spec):
    r, g, b = rgb(spec)
    return 0.2126 * r + 0.7152 * g + 0.0722 * b


def spec_of(r, g, b, digits):
    top = 16 ** digits - 1
    s = '#' + ''.join('%0*x' % (digits, int(round(c * top)))
                      for c in (r, g, b))
    return s


def pick_color(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice(sorted(NAMED))
    d = rng.choice([1, 2, 2, 2, 2, 4])
    if r < 0.4:
        c = [rng.random() for _ in range(3)]
    elif r < 0.6:
        c = [rng.choice([0.0, 1.0, 0.5]) for _ in range(3)]
    elif r < 0.75:
        g = rng.random()
        c = [g, g, g]
    else:
        # near the boundary
        g = rng.uniform(0.45, 0.55)
        c = [min(1, max(0, g + rng.uniform(-.1, .1))) for _ in range(3)]
    s = spec_of(*(c + [d]))
    return s.upper() if rng.random() < 0.3 else s


class C23(WidgetCheck):
    id = 'C23'
    quick, thorough = 6000, 120000
    rule = ('generated colours (1, 2 and 4 digits, names, random, grey, '
            'extreme and near the boundary) and histories of colour changes '
            'with refreshes on displayed rows of a widget with text and '
            'other cells; every cell of every row rendered and compared after '
            'every operation, brightness compared and ordered; non-trivial: '
            'a row with a dark, one with a light and one without colour were '
            'rendered, and a colour changed on a displayed row')
    weights = gen.weights(gen.STRUCT, gen.FILT, gen.DATA)

    def gen(self, rng, tier):
        c = gen.history(rng, self.weights, nviews=(1, 1), size=rng.randint(2, 8))
        pal = [pick_color(rng) for _ in range(rng.randint(2, 6))] + [None]
        c['cfg']['palette'] = pal
        c['cfg']['cells'] = rng.randint(1, 3)
        c['cfg']['colcol'] = rng.choice(['first', 'last', 'mid'])
        c['cfg']['hide'] = rng.random() < 0.7
        ops = c['ops']
        # data operations choose a colour of the palette through val
        for op in ops:
            if op[0] == 'add':
                op[4] = rng.randint(0, 11)
            elif op[0] == 'data':
                op[3] = rng.randint(0, 11)
        start = rng.choice([0, len(ops) // 2])
        ops.insert(start, ['widget'])
        ops.insert(rng.randint(start + 1, min(len(ops), start + 4)),
                   ['bg', 0])
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.insert(rng.randint(start + 1, len(ops)),
                       ['bg', rng.randint(0, 2)])
        for _ in range(rng.randint(0, 2)):
            ops.insert(rng.randint(0, len(ops)), ['bright', [
                rng.random(), rng.random(), rng.random()],
                rng.choice([1, 2, 4]), rng.randint(0, 2), rng.random()])
        return c

    def color(self, case, how, node):
        pal = case['cfg']['palette']
        if how == 0:
            return pal[node.val % len(pal)]
        if how == 1:
            return pal[(node.val + len(node.colors)) % len(pal)]
        return pal[0] if 'r' in node.colors else None

    def go(self, case, info):
        Gtk = G['Gtk']
        w = World(case['cfg'], mirrors=False)
        info['stats'] = w.stats
        tv = None
        how = None
        last = {}
        turn = 0
        kinds = set()
        changed = False
        for op in case['ops']:
            w.last = op
            if op[0] == 'widget':
                if tv is not None or not w.views:
                    continue
                view = w.views[0].obj
                n = case['cfg']['cells']
                desc = {}
                for i in range(n):
                    d = {'value': [str, lambda nd: nd.get_id()],
                         'renderer': ['text', Gtk.CellRendererText()
                                      if n % 2 else G['Text']()],
                         'order': 2 * i + 1}
                    if i == 1:
                        d = {'value': [bool, lambda nd: True], 'renderer': [
                            'active', Gtk.CellRendererToggle()], 'order': 3}
                    desc['t%d' % i] = d
                desc['color'] = {
                    'value': [str, lambda nd: None],
                    'renderer': ['text', Gtk.CellRendererText()],
                    'visible': not case['cfg']['hide'],
                    'order': {'first': 0, 'mid': 2, 'last': 99}[
                        case['cfg']['colcol']]}
                tv = w.real(lambda: G['TreeView'](view, desc))
                self.tvs.append(tv)
            elif op[0] == 'bg':
                if tv is None:
                    continue
                how = op[1]

                def func(node, default, how=how):
                    return self.color(case, how, node)
                w.real(lambda: tv.set_bg_color(func, 'color'))
                try:
                    tv.set_bg_color(func, 'no such column')
                except ValueError:
                    pass
                except Exception as e:
                    raise Violation('column', 'unknown colour column: %r' % e)
                else:
                    raise Violation('column', 'unknown colour column taken')
                w.real(w.t.refresh_all)
                last.clear()
                w.bump('bg')
            elif op[0] == 'bright':
                self.bright(op)
                w.bump('bright')
            else:
                w.step(op)
            if tv is None:
                continue
            model = tv.get_model()
            rows = walk(model)
            turn += 1
            if len(rows) > 120 and turn % 4 and op[0] != 'bg' and \
                    op is not case['ops'][-1]:
                continue        # many rows: not after every operation
            for p, it in rows:
                node = view.get_node(p[-1])
                want = self.color(case, how, node) if how is not None else None
                kinds.add('none' if want is None else
                          'dark' if luminance(want) < 0.5 else 'light')
                changed = changed or (p in last and last[p] != want)
                last[p] = want
                for i in range(tv.get_n_columns()):
                    col = tv.get_column(i)
                    col.cell_set_cell_data(model, it, False, False)
                    for cell in col.get_cells():
                        self.cell(w, p, cell, want, i)
            here = {q for q, _ in rows}
            for p in list(last):
                if p not in here:
                    del last[p]
        info['nontrivial'] = bool(len(kinds) == 3 and changed)

    def cell(self, w, p, cell, want, i):
        on = cell.get_property('cell-background-set')
        where = 'after %s: row %s cell %d' % (w.last, p, i)
        if want is None:
            if on:
                raise Violation('background', where + ' has a colour')
        else:
            if not on:
                raise Violation('background', where + ' has no colour, not ' +
                                want)
            c = cell.get_property('cell-background-rgba')
            if max(abs(a - b) for a, b in zip(
                    (c.red, c.green, c.blue), rgb(want))) > 0.004:
                raise Violation('background', '%s has %s instead of %s' % (
                    where, c.to_string(), want))
        if isinstance(cell, G['Gtk'].CellRendererText):
            fg = cell.get_property('foreground-set')
            lum = luminance(want) if want is not None else 1
            if abs(lum - 0.5) < 1e-3:
                return
            if lum < 0.5:
                c = cell.get_property('foreground-rgba')
                if not fg or (c.red, c.green, c.blue) != (1, 1, 1):
                    raise Violation('foreground', '%s: text on %s is not '
                                    'white' % (where, want))
            elif fg:
                raise Violation('foreground', '%s: text on %s has a colour' % (
                    where, want))

    def bright(self, op):
        f = G['lg'].brightness
        c, d = list(op[1]), op[2]
        s = spec_of(*(c + [d]))
        b = f(s)
        if not 0 <= b <= 1:
            raise Violation('brightness', '%s: %s' % (s, b))
        if abs(b - luminance(s)) > 1e-3:
            raise Violation('brightness', '%s: %s instead of %s' % (
                s, b, luminance(s)))
        if f(s) != b:
            raise Violation('brightness', 'differs the second time')
        # one component grows
        k = op[3]
        c2 = list(c)
        c2[k] = c[k] + (1 - c[k]) * op[4]
        s2 = spec_of(*(c2 + [d]))
        b2 = f(s2)
        if s2 != s and not b2 > b:
            raise Violation('brightness', '%s: %s, %s: %s' % (s, b, s2, b2))
        if f('#000') != 0 or abs(f('#ffffff') - 1) > 1e-9:
            raise Violation('brightness', 'black %s white %s' % (
                f('#000'), f('#ffffff')))


class C25(WidgetCheck):
    id = 'C25'
    quick, thorough = 3200, 60000
    assumptions = WidgetCheck.assumptions[:-1] + [
        'the widget is drawn in an off-screen window; a separator is a row '
        'less than half as high as a text row, read when the widget has been '
        'laid out (waiting at most 10 s)',
        'the function decides by the node\'s own data, and a node whose data '
        'changed is refreshed']
    rule = ('histories of structural, data and filter operations with a '
            'widget drawn off screen and changing separator functions (by '
            'colour, by value, for no node, for all, none set); height of '
            'every row compared at 2-8 points; non-trivial: separators and '
            'ordinary rows were seen together, and a row changed its kind or '
            'the function was replaced')
    weights = gen.weights(gen.STRUCT, gen.FILT, gen.DATA)
    FUNCS = ['red', 'odd', 'none', 'all', 'off', 'truthy', 'text',
             'opt']

    def gen(self, rng, tier):
        c = gen.history(rng, self.weights, nviews=(1, 1), size=rng.randint(2, 8))
        ops = c['ops']
        start = rng.choice([0, len(ops) // 2, rng.randint(0, len(ops))])
        ops.insert(start, ['widget', rng.random() < 0.3])
        ops.insert(rng.randint(start + 1, len(ops)),
                   ['sep', rng.choice(
                       ['red', 'odd', 'truthy', 'text', 'opt'])])
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            ops.insert(rng.randint(start + 1, len(ops)),
                       ['sep', rng.choice(self.FUNCS)])
        for _ in range(rng.randint(1, 5)):
            ops.insert(rng.randint(start + 1, len(ops)), ['look'])
        return c

    def is_sep(self, how, node):
        if how in (None, 'off', 'none'):
            return False
        return bool({'red': 'r' in node.colors, 'odd': node.val % 2,
                     'truthy': node.val, 'text': node.val % 3,
                     'opt': node.colors, 'all': True}[how])

    def func(self, how):
        if how == 'off':
            return None
        if how == 'red':
            return lambda n: 'r' in n.colors
        if how == 'odd':
            return lambda n: n.val % 2 == 1
        if how == 'truthy':
            return lambda n: n.val
        if how == 'text':
            return lambda n: 'sep' if n.val % 3 else ''
        if how == 'opt':
            return lambda n: sorted(n.colors) or None
        return lambda n: how == 'all'

    def go(self, case, info):
        Gtk = G['Gtk']
        w = World(case['cfg'], mirrors=False)
        info['stats'] = w.stats
        tv = None
        how = None
        last = {}
        both = changed = False
        for op in case['ops'] + [['look']]:
            w.last = op
            if op[0] == 'widget':
                if tv is not None or not w.views:
                    continue
                view = w.views[0].obj
                tv = w.real(lambda: G['TreeView'](view, {
                    'id': {'value': [str, lambda n: n.get_id()], 'renderer':
                           ['text', Gtk.CellRendererText()], 'order': 0},
                    'v': {'value': [int, lambda n: n.val], 'renderer':
                          ['text', Gtk.CellRendererText()], 'order': 1}}))
                if op[1]:
                    tv.set_sort_column('v')
                win = Gtk.OffscreenWindow()
                self.tvs.append(win)
                win.add(tv)
                win.show_all()
                drain()
            elif op[0] == 'sep':
                if tv is None:
                    continue
                changed = changed or (how is not None and how != op[1])
                how = op[1]
                w.real(lambda: tv.set_row_separator_func(self.func(how)))
                w.bump('sep')
            elif op[0] == 'look':
                if tv is None:
                    continue
                tv.expand_all()
                want = [(p, self.is_sep(how, view.get_node(p[-1])))
                        for p, it in walk(tv.get_model())]
                self.compare(w, tv, want)
                kinds = {k for _, k in want}
                both = both or len(kinds) == 2
                for p, k in want:
                    changed = changed or (p in last and last[p] != k)
                last.update(want)
                w.bump('rows', len(want))
            else:
                w.step(op)
        info['nontrivial'] = bool(both and changed)

    def compare(self, w, tv, want):
        import time
        ctx = G['GLib'].MainContext.default()
        end = time.time() + 10
        turns = 0
        cell = G['Gtk'].CellRendererText()
        cell.set_property('text', 'x')
        text = cell.get_preferred_height(tv)[1]
        while True:
            got = []
            for p, it in walk(tv.get_model()):
                h = tv.get_background_area(tv.get_model().get_path(it),
                                           tv.get_column(0)).height
                got.append((p, h * 2 < text if h else None))
            if got == want:
                return
            if time.time() > end and turns > 500:
                diff = [(a, b) for a, b in zip(want, got) if a != b]
                raise Violation('separator', 'row and whether it is a '
                                'separator: %s instead of %s' % (
                                    diff[0][1], diff[0][0]))
            for _ in range(20):
                turns += 1
                if not ctx.iteration(False):
                    time.sleep(0.0005)
                    break
