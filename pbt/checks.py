"""Registry of the checks; one class per property."""


class Check(object):
    id = None
    display = False      # needs an X server
    crashy = False       # native code may take the process down
    quick = 4000
    thorough = 100000
    rule = ''
    assumptions = []

    def setup(self):
        pass

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, case, info):
        raise NotImplementedError

    def due(self, case, i):
        """ Whether the answers are asked for after operation i: something
        remembered between two queries is only wrong if something happened
        in between without a query """
        k = case['cfg'].get('sparse')
        return not k or i % k == k - 1 or i == len(case['ops']) - 1

    def simplify(self, case):
        """ Smaller configurations to try when shrinking """
        cfg = case.get('cfg') or {}
        for key in ('filters', 'views', 'counts'):
            items = cfg.get(key) or []
            for i in range(len(items)):
                c = dict(cfg)
                c[key] = items[:i] + items[i + 1:]
                yield dict(case, cfg=c)
        for i, op in enumerate(case.get('ops', [])):
            if op[0] in ('multi', 'view') and op[-1]:
                for j in range(len(op[-1])):
                    o = op[:-1] + [op[-1][:j] + op[-1][j + 1:]]
                    yield dict(case, ops=case['ops'][:i] + [o] +
                               case['ops'][i + 1:])


def get(prop):
    import checks_tree
    import checks_view
    import checks_misc
    import checks_gtk
    for mod in (checks_tree, checks_view, checks_misc, checks_gtk):
        for name in dir(mod):
            c = getattr(mod, name)
            if isinstance(c, type) and getattr(c, 'id', None) == prop:
                return c()
    raise SystemExit('unknown property ' + prop)
