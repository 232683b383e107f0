"""Reference model of the main tree: what every structural operation means.

Written from the documentation and the observable behaviour, on plain lists;
shares no code with liblarch."""


class Refused(Exception):
    """The operation would make a node its own ancestor."""


class MNode(object):
    __slots__ = ('parents', 'children', 'pe', 'ce')

    def __init__(self, pe=True, ce=True):
        self.parents, self.children, self.pe, self.ce = [], [], pe, ce


class Loose(object):
    """A node object which is not in the tree (never added, or deleted)."""
    __slots__ = ('pe', 'ce', 'pending', 'known')

    def __init__(self):
        self.pe = self.ce = True
        self.pending = []       # declared on the object, before any tree
        self.known = False      # has been in the tree before


class Model(object):
    def __init__(self):
        self.nodes = {}
        self.root = []
        self.pending = []
        self.loose = {}

    def copy(self):
        m = Model.__new__(Model)
        m.nodes = {}
        for k, n in self.nodes.items():
            c = MNode(n.pe, n.ce)
            c.parents, c.children = n.parents[:], n.children[:]
            m.nodes[k] = c
        m.root = self.root[:]
        m.pending = self.pending[:]
        m.loose = {}
        for k, l in self.loose.items():
            c = Loose()
            c.pe, c.ce, c.pending, c.known = l.pe, l.ce, l.pending[:], l.known
            m.loose[k] = c
        return m

    # ---- queries
    def below(self, top):
        """top and all its descendants"""
        seen, stack = set(), [top]
        while stack:
            x = stack.pop()
            if x in seen or x not in self.nodes:
                continue
            seen.add(x)
            stack.extend(self.nodes[x].children)
        return seen

    def cyclic(self, parent, child):
        return parent == child or parent in self.below(child)

    def state(self):
        return (self.root, {k: (n.parents, n.children)
                            for k, n in self.nodes.items()})

    def count_paths(self):
        memo = {}

        def paths(x):
            if x not in memo:
                memo[x] = 0
                ps = self.nodes[x].parents
                memo[x] = sum(paths(p) for p in ps) if ps else 1
            return memo[x]
        return sum(paths(x) for x in self.nodes)

    # ---- primitive changes
    def _link(self, p, c):
        if c not in self.nodes[p].children:
            self.nodes[p].children.append(c)
        if p not in self.nodes[c].parents:
            self.nodes[c].parents.append(p)
        if c in self.root:
            self.root.remove(c)

    def _unlink(self, p, c):
        self.nodes[p].children.remove(c)
        self.nodes[c].parents.remove(p)
        if not self.nodes[c].parents:
            self.root.append(c)

    def _relate(self, p, c):
        """both ends exist and accept it"""
        if self.cyclic(p, c):
            raise Refused
        if (p, c) in self.pending:
            self.pending.remove((p, c))
        self._link(p, c)

    # ---- operations; each returns True if it had something to do
    def new(self, x):
        if x in self.nodes or x in self.loose:
            return False
        self.loose[x] = Loose()
        return True

    def add(self, x, parent=None):
        if x in self.nodes:
            return False
        l = self.loose.get(x) or Loose()
        declared = list(self.pending)
        for r in l.pending:
            if r not in declared:
                declared.append(r)
        if parent is not None:
            kids = [c for (p, c) in declared if p == x and c in self.nodes and
                    l.ce and self.nodes[c].pe]
            if parent == x or any(self.cyclic(parent, c) for c in kids):
                raise Refused
        self.loose.pop(x, None)
        self.pending = declared
        self.nodes[x] = MNode(l.pe, l.ce)
        for p, c in list(self.pending):
            if (c == x and p in self.nodes) or (p == x and c in self.nodes):
                if (self.nodes[p].ce and self.nodes[c].pe and
                        not self.cyclic(p, c)):
                    self._link(p, c)
                self.pending.remove((p, c))
        if parent is not None:
            if parent in self.nodes:
                if self.nodes[parent].ce and l.pe:
                    self._link(parent, x)
            else:
                self.pending.append((parent, x))
        if not self.nodes[x].parents:
            self.root.append(x)
        return True

    def delete(self, x, recursive=False):
        if x not in self.nodes:
            return False
        self.pending = [r for r in self.pending if x not in r]
        n = self.nodes[x]
        for p in list(n.parents):
            self.nodes[p].children.remove(x)
        n.parents[:] = []
        for c in list(n.children):
            if recursive:
                self.delete(c, True)
            else:
                self._unlink(x, c)
        if x in self.root:
            self.root.remove(x)
        del self.nodes[x]
        l = self.loose[x] = Loose()
        l.pe, l.ce, l.known = n.pe, n.ce, True
        return True

    def add_parent(self, x, p):
        if x in self.nodes:
            n = self.nodes[x]
            if p == x or not n.pe or p in n.parents:
                return False
            if p not in self.nodes:
                self.pending.append((p, x))
            elif self.nodes[p].ce:
                self._relate(p, x)
            else:
                return False
            return True
        if x in self.loose:
            l = self.loose[x]
            if p == x or not l.pe:
                return False
            if not l.known:
                l.pending.append((p, x))
            elif p not in self.nodes or self.nodes[p].ce:
                if p in self.nodes and (p, x) in self.pending:
                    self.pending.remove((p, x))
                self.pending.append((p, x))
            return True
        return False

    def add_child(self, x, c):
        if x in self.nodes:
            n = self.nodes[x]
            if c == x or not n.ce or c in n.children:
                return False
            if c not in self.nodes:
                self.pending.append((x, c))
            elif self.nodes[c].pe:
                self._relate(x, c)
            else:
                return False
            return True
        if x in self.loose and not self.loose[x].known:
            l = self.loose[x]
            if c == x or not l.ce:
                return False
            l.pending.append((x, c))
            return True
        return False

    def remove_parent(self, x, p):
        if x not in self.nodes or p not in self.nodes[x].parents:
            return False
        self._unlink(p, x)
        return True

    def move(self, x, p):
        if x not in self.nodes:
            return False
        n = self.nodes[x]
        if p == x or not n.pe:
            return False
        if p is None or p not in self.nodes:
            self._forget(x)
            for q in list(n.parents):
                self._unlink(q, x)
            if p is not None:
                self.pending.append((p, x))
            return True
        if not self.nodes[p].ce:
            return False
        if p not in n.parents:
            self._relate(p, x)
        self._forget(x)
        for q in list(n.parents):
            if q != p:
                self._unlink(q, x)
        return True

    def _forget(self, x):
        """ x waits for no parent any more """
        self.pending = [r for r in self.pending if r[1] != x]

    def set_parent(self, x, p):
        """ a move, or what an object outside the tree declares """
        if x in self.nodes:
            return self.move(x, p)
        l = self.loose.get(x)
        if l is None or l.known or p is None or p == x or not l.pe:
            return False
        l.pending = [r for r in l.pending if r[1] != x] + [(p, x)]
        return True

    def set_parents_enabled(self, x, on):
        if x in self.nodes:
            n = self.nodes[x]
            if not on:
                for q in list(n.parents):
                    self._unlink(q, x)
            n.pe = on
        elif x in self.loose:
            self.loose[x].pe = on
        else:
            return False
        return True

    def set_children_enabled(self, x, on):
        if x in self.nodes:
            n = self.nodes[x]
            if not on:
                for c in list(n.children):
                    self._unlink(x, c)
            n.ce = on
        elif x in self.loose:
            self.loose[x].ce = on
        else:
            return False
        return True
