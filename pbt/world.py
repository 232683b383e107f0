"""Drives the real liblarch through its public interface, in lockstep with the
reference model, and keeps listener mirrors of every view.

Every operation is total: one whose precondition is not met is skipped, so any
sub-sequence of a history is a history (which is what shrinking needs)."""
import functools
import sys

REPO = '/repo'
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from liblarch import Tree, TreeNode  # noqa: E402

from model import Model, Refused  # noqa: E402

MAX_PATHS = 400
COLORS = 'rgb'


class Violation(Exception):
    def __init__(self, kind, msg=''):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class Void(Exception):
    """The case cannot go on for a reason which is another property's."""


class Nd(TreeNode):
    def __init__(self, nid, colors='', val=0, parent=None):
        self.colors = set(colors)
        self.val = val
        TreeNode.__init__(self, nid, parent)


# ---- filters: user-supplied predicates -------------------------------------
def _kids(node):
    t = node.get_tree()
    return [t.get_node(c) for c in node.get_children()]


def _rec(c, node):
    return c in node.colors or any(_rec(c, k) for k in _kids(node))


def verdict(spec, node, parameters=None):
    k = spec[0]
    if k == 'has':
        return spec[1] in node.colors
    if k == 'hasany':
        return any(c in node.colors for c in spec[1])
    if k == 'val':
        return node.val >= spec[1]
    if k == 'valmod':
        return node.val % 2 == spec[1]
    if k == 'id':
        return node.get_id() in spec[1]
    # verdicts which are not booleans
    if k == 'colors':
        return sorted(node.colors)
    if k == 'num':
        return node.val
    if k == 'yes':
        return 'yes' if spec[1] in node.colors else None
    if k == 'all':
        return True
    if k == 'none':
        return False
    if k == 'param':
        return (parameters or {}).get('c', 'r') in node.colors
    if k == 'leaf':
        return not node.has_child()
    if k == 'parent':
        return node.get_n_children() > 0
    if k == 'nkids':
        return node.get_n_children() >= spec[1]
    if k == 'rec':
        return _rec(spec[1], node)
    if k == 'orchild':
        return spec[1] in node.colors or any(
            spec[2] in c.colors for c in _kids(node))
    if k == 'last':
        return spec[1] in node.colors and not any(
            spec[1] in c.colors for c in _kids(node))
    if k == 'norec':
        return not any(_rec(spec[1], c) for c in _kids(node))
    raise KeyError(k)


def filter_func(spec):
    def user_filter(node, parameters=None):
        return verdict(spec, node, parameters)
    return user_filter


class Mirror(object):
    """A listener which knows a view only from its notifications."""

    def __init__(self, world, view, label=None, strict=True):
        self.w, self.v = world, view
        self.rows = {}
        self.label = label
        self.error = None
        self.n = {'added': 0, 'deleted': 0, 'modified': 0}
        self.touched = set()
        self.hook = None
        self.keys = []

    def connect(self):
        self.keys = [
            ('node-added-inview', self.v.register_cllbck(
                'node-added-inview', self.added)),
            ('node-deleted-inview', self.v.register_cllbck(
                'node-deleted-inview', self.deleted)),
            ('node-modified-inview', self.v.register_cllbck(
                'node-modified-inview', self.modified))]

    def disconnect(self):
        for ev, key in self.keys:
            self.v.deregister_cllbck(ev, key)

    def err(self, kind, msg):
        if self.error is None:
            self.error = (kind, msg)

    def _label(self, nid):
        if self.label is None:
            return None
        try:
            return self.label(self.v, nid)
        except Exception as e:      # noqa
            self.err('label', 'computing the label of %r at a notification '
                     'raised %s: %s' % (nid, type(e).__name__, e))

    def added(self, nid, path):
        self.n['added'] += 1
        if not path or path[-1] != nid:
            self.err('path', 'added %r with path %r' % (nid, path))
        if path in self.rows:
            self.err('dup-add', 'path %r added twice' % (path,))
        if len(path) > 1 and path[:-1] not in self.rows:
            self.err('orphan-add', 'path %r added before its parent' % (path,))
        self.rows[path] = self._label(nid)
        self.touched.add(path)
        if self.hook:
            self.hook(self, 'added', nid, path)

    def deleted(self, nid, path):
        self.n['deleted'] += 1
        if not path or path[-1] != nid:
            self.err('path', 'deleted %r with path %r' % (nid, path))
        if path not in self.rows:
            self.err('unknown-del', 'path %r deleted but not there' % (path,))
        if any(len(q) > len(path) and q[:len(path)] == path
               for q in self.rows):
            self.err('nonleaf-del', 'path %r deleted above its children' % (
                path,))
        self.rows.pop(path, None)
        self.touched.discard(path)
        if self.hook:
            self.hook(self, 'deleted', nid, path)

    def modified(self, nid, path):
        self.n['modified'] += 1
        if not path or path[-1] != nid:
            self.err('path', 'modified %r with path %r' % (nid, path))
        if path not in self.rows:
            self.err('unknown-mod', 'path %r modified but not there' % (path,))
        else:
            self.rows[path] = self._label(nid)
            self.touched.add(path)
        if self.hook:
            self.hook(self, 'modified', nid, path)


class ViewState(object):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        self.applied = []
        self.mirrors = []
        self.dirty = False


class Null(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


NULL = Null()


class World(object):
    def __init__(self, cfg, label=None, mirrors=True, hook=None):
        self.cfg = cfg
        self.t = Tree()
        self.m = Model()
        self.objs = {}          # node objects not in the tree
        self.bank = {}          # name -> [spec, params]
        self.funcs = {}
        self.given = {}         # the dictionary last given for a filter
        self.ngiven = 0
        self.views = []
        self.counts = []
        self.label, self.mirrors, self.hook = label, mirrors, hook
        self.last = None
        self.stats = {}
        for name, spec, params in cfg.get('filters', []):
            self.op_addf(name, spec, params)
        for vc in cfg.get('views', []):
            self.make_view(vc.get('name'))

    # ---- bookkeeping
    def bump(self, what, k=1):
        self.stats[what] = self.stats.get(what, 0) + k

    def make_view(self, name=None, refresh=True):
        for vs in self.views:
            if name is not None and vs.name == name:
                return vs
        vs = ViewState(self.t.get_viewtree(name=name, refresh=refresh), name)
        self.views.append(vs)
        if self.mirrors:
            m = Mirror(self, vs.obj, self.label)
            m.hook = self.hook
            m.connect()
            vs.mirrors.append(m)
            if refresh:
                vs.obj.get_current_state()
        return vs

    def view(self, i):
        return self.views[i % len(self.views)] if self.views else None

    # ---- running
    def step(self, op):
        """ Run one operation. Returns 'ok', 'skip' or 'refused'. """
        self.last = op
        out, sys.stdout = sys.stdout, NULL
        try:
            r = getattr(self, 'op_' + op[0])(*op[1:])
        finally:
            sys.stdout = out
        self.bump(op[0] if r == 'ok' else op[0] + ':' + r)
        return r

    def structural(self, mop, real):
        """ Apply to the model, then to the real tree """
        m2 = self.m.copy()
        try:
            done = mop(m2)
            refused = False
        except Refused:
            refused = True
        if not refused and m2.count_paths() > MAX_PATHS:
            return 'skip'
        try:
            self.ret = real()
        except (Violation, Void):
            raise
        except Exception as e:
            if refused:
                return 'refused'
            raise unexpected(e, self.last)
        if refused:
            self.accepted_cycle()
            return 'ok'
        self.m = m2
        return 'ok' if done else 'noop'

    def accepted_cycle(self):
        """ The real tree took what would be a cycle; C03 overrides it """
        raise Void('cycle accepted')

    def real(self, f):
        try:
            return f()
        except (Violation, Void):
            raise
        except Exception as e:
            raise unexpected(e, self.last)

    def obj(self, x, colors='', val=0, parent=None):
        """ Node object to be added """
        o = self.objs.get(x)
        if o is None:
            o = Nd(x, colors, val, parent)
            self.objs[x] = o
        else:
            o.colors, o.val = set(colors), val
        return o

    # ---- structure
    def op_new(self, x, parent=None):
        """ Create a node object without adding it """
        if self.t.has_node(x) or x in self.objs:
            return 'skip'

        def mop(m):
            m.new(x)
            if parent is not None:
                m.add_parent(x, parent)
            return True
        return self.structural(mop, lambda: self.obj(x, '', 0, parent))

    def op_add(self, x, parent, colors, val, priority='low'):
        if self.t.has_node(x):
            # adding another node under a used id, or the same node once
            # more: refused with a message
            n = self.t.get_node(x) if val % 2 else Nd(x, colors, val)
            return self.structural(
                lambda m: m.add(x, parent),
                lambda: self.t.add_node(n, parent, priority))
        known = self.m.loose.get(x)
        if known and known.known and val % 3 == 1 and x in self.objs:
            # not the node which was there before, but another one
            self.objs.pop(x)
            self.m.loose.pop(x)
            self.bump('anew')
        o = self.obj(x, colors, val)

        def real():
            r = self.t.add_node(o, parent, priority)
            self.objs.pop(x, None)
            return r
        r = self.structural(lambda m: m.add(x, parent), real)
        if r == 'skip' and x not in self.m.loose:
            self.objs.pop(x, None)
        if r == 'refused' and x not in self.m.loose:
            self.objs.pop(x, None)
        return r

    def op_del(self, x, rec):
        gone = {}
        if self.t.has_node(x):
            gone = {y: self.t.get_node(y)
                    for y in (self.m.below(x) if rec else [x])
                    if self.t.has_node(y)}
        r = self.structural(lambda m: m.delete(x, rec),
                            lambda: self.t.del_node(x, recursive=rec))
        for y, o in gone.items():
            if not self.t.has_node(y):
                self.objs[y] = o
        return r

    def op_move(self, x, p):
        return self.structural(lambda m: m.move(x, p),
                               lambda: self.t.move_node(x, p))

    def op_addpar(self, x, p):
        return self.structural(lambda m: m.add_parent(x, p) if x in m.nodes
                               else False,
                               lambda: self.t.add_parent(x, p))

    def _node(self, x):
        if self.t.has_node(x):
            return self.t.get_node(x)
        return self.objs.get(x)

    def op_nodeaddpar(self, x, p):
        o = self._node(x)
        if o is None:
            return 'skip'
        return self.structural(lambda m: m.add_parent(x, p),
                               lambda: o.add_parent(p))

    def op_addch(self, x, c):
        o = self._node(x)
        if o is None or (x in self.m.loose and self.m.loose[x].known):
            return 'skip'
        return self.structural(lambda m: m.add_child(x, c),
                               lambda: o.add_child(c))

    def op_rempar(self, x, p):
        if not self.t.has_node(x):
            return 'skip'
        return self.structural(lambda m: m.remove_parent(x, p),
                               lambda: self.t.get_node(x).remove_parent(p))

    def op_setpar(self, x, p):
        o = self._node(x)
        if o is None or (not self.t.has_node(x) and (
                p is None or x not in self.m.loose or
                self.m.loose[x].known)):
            return 'skip'
        return self.structural(lambda m: m.set_parent(x, p),
                               lambda: o.set_parent(p))

    def op_enp(self, x, on):
        o = self._node(x)
        if o is None:
            return 'skip'
        return self.structural(lambda m: m.set_parents_enabled(x, on),
                               lambda: o.set_parents_enabled(on))

    def op_enc(self, x, on):
        o = self._node(x)
        if o is None:
            return 'skip'
        return self.structural(lambda m: m.set_children_enabled(x, on),
                               lambda: o.set_children_enabled(on))

    # ---- data
    def op_data(self, x, colors, val, how=0):
        if not self.t.has_node(x):
            return 'skip'
        n = self.t.get_node(x)
        n.colors, n.val = set(colors), val
        if how == 0:
            self.real(lambda: n.modified())
        elif how == 1:
            self.real(lambda: self.t.refresh_node(x))
        elif how == 2:
            self.real(lambda: self.t.refresh_node(x, priority='high'))
        else:
            self.real(lambda: self.t.refresh_all())
        return 'ok'

    def op_mod(self, x):
        self.real(lambda: self.t.refresh_node(x))
        return 'ok' if self.t.has_node(x) else 'noop'

    def op_refall(self):
        self.real(lambda: self.t.refresh_all())
        return 'ok'

    # ---- filter bank
    def op_addf(self, name, spec, params=None):
        # filters of the same kind are one function
        func = self.funcs.setdefault(str(spec), filter_func(spec))
        own = dict(params) if params else None
        r = self.real(lambda: self.t.add_filter(name, func, own))
        exp = name not in self.bank
        if bool(r) != exp:
            raise Violation('bank', 'add_filter(%r) returned %r' % (name, r))
        if exp:
            self.bank[name] = [spec, dict(params or {})]
            self.given[name] = own
            self.resync(name)
        return 'ok' if exp else 'noop'

    def op_remf(self, name):
        r = self.real(lambda: self.t.remove_filter(name))
        exp = name in self.bank
        if bool(r) != exp:
            raise Violation('bank', 'remove_filter(%r) returned %r' % (
                name, r))
        if exp:
            del self.bank[name]
            self.resync(name)
        return 'ok' if exp else 'noop'

    def resync(self, name, but=None):
        """ Views with a changed bank filter are only right after a refresh:
        take the filter away and apply it again """
        for vs in self.views:
            if vs is not but and name in vs.applied:
                self.real(lambda: vs.obj.unapply_filter(name))
                self.real(lambda: vs.obj.apply_filter(name))
                vs.applied.remove(name)
                vs.applied.append(name)
                vs.dirty = False
        for cs in self.counts:
            cs.resync(name)

    # ---- filters of views
    postponing = False          # check that postponed refreshes do nothing

    def filter_op(self, vs, refresh, f):
        def state():
            return ({x: list(vs.obj.node_all_children(x))
                     for x in [None] + list(vs.obj.get_all_nodes())},
                    [dict(m.n) for m in vs.mirrors])
        if refresh or not self.postponing:
            return self.real(f)
        before = state()
        self.real(f)
        if state() != before:
            raise Violation('postponed', '%s changed the view or notified its '
                            'listeners although the refresh was postponed' % (
                                self.last,))

    def op_apply(self, i, name, params=None, reset=False, refresh=True):
        vs = self.view(i)
        if vs is None:
            return 'skip'
        if params and name not in self.bank:
            try:
                vs.obj.apply_filter(name, dict(params), reset=reset,
                                    refresh=refresh)
            except ValueError:
                return 'refused'
            except Exception as e:
                raise unexpected(e, self.last)
            raise Violation('filter', 'parameters for the unknown filter %r '
                            'were accepted' % name)
        kw = {}
        if params:
            # the program may give the same dictionary with another content
            self.ngiven += 1
            p = self.given.get(name)
            if p is None or self.ngiven % 2:
                p = self.given[name] = {}
            p.clear()
            p.update(params)
            kw['parameters'] = p
        if reset:
            kw['reset'] = True
        if not refresh:
            kw['refresh'] = False
        self.filter_op(vs, refresh,
                       lambda: vs.obj.apply_filter(name, **kw))
        effective = bool(params)
        if reset:
            vs.dirty = vs.dirty or bool(vs.applied)
            vs.applied = []
        if params:
            self.bank[name][1] = dict(params)
        if name not in vs.applied:
            vs.applied.append(name)
            effective = True
        if effective:
            vs.dirty = not refresh
        if params:
            self.resync(name, vs)
        return 'ok' if effective else 'noop'

    def op_unapply(self, i, name, refresh=True):
        vs = self.view(i)
        if vs is None:
            return 'skip'
        if refresh:
            self.real(lambda: vs.obj.unapply_filter(name))
        else:
            self.filter_op(vs, False, lambda: vs.obj.unapply_filter(
                name, refresh=False))
        if name in vs.applied:
            vs.applied.remove(name)
            vs.dirty = not refresh
            return 'ok'
        return 'noop'

    def op_reset(self, i, refresh=True):
        vs = self.view(i)
        if vs is None:
            return 'skip'
        if refresh:
            self.real(lambda: vs.obj.reset_filters())
        else:
            self.filter_op(vs, False, lambda: vs.obj.reset_filters(
                refresh=False))
        vs.applied = []
        vs.dirty = not refresh
        return 'ok'

    def op_multi(self, i, sub):
        """ Several filter operations with postponed refresh, then a refresh.
        """
        vs = self.view(i)
        if vs is None:
            return 'skip'
        for o in sub:
            getattr(self, 'op_' + o[0])(i, *o[1:])
        if vs.dirty:
            self.op_reset(i)
        return 'ok'

    def op_view(self, name=None, sub=None):
        """ A new view; sub: filters applied with a postponed refresh """
        if len(self.views) >= 5:
            return 'skip'
        if sub:
            n = len(self.views)
            vs = self.make_view(name, refresh=False)
            if len(self.views) == n:
                return 'noop'
            vs.dirty = True
            return self.op_multi(n, sub)
        self.make_view(name)
        return 'ok'

    # ---- what the views have to show, from the real tree and the filters
    def accepts(self, name, x):
        if name not in self.bank:
            return False
        spec, params = self.bank[name]
        r = verdict(spec, self.t.get_node(x), params or None)
        return (not r) if params.get('negate') else bool(r)

    def expected(self, applied):
        return {x for x in self.t.get_main_view().get_all_nodes()
                if all(self.accepts(f, x) for f in applied)}

    def is_flat(self, applied):
        return any(f in self.bank and self.bank[f][1].get('flat')
                   for f in applied)

    def expected_links(self, applied, shown):
        """ node -> (set of displayed parents) """
        if self.is_flat(applied):
            return {x: set() for x in shown}
        return {x: {p for p in self.t.get_node(x).get_parents()
                    if p in shown} for x in shown}


def unexpected(e, op):
    import traceback
    where = ''
    for fr in traceback.extract_tb(e.__traceback__):
        if fr.filename.startswith(REPO):
            where = '%s:%s' % (fr.filename[len(REPO) + 1:], fr.name)
    return Violation('exception', '%s raised %s: %s (in %s)' % (
        op, type(e).__name__, str(e)[:200], where))
