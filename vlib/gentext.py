"""Seeded modules for the schema checks."""
from . import gen, ir, text

TRAPS = ['value', 'values', 'items', 'keys', 'count', 'index', 'clear', 'reset', 'append', 'extend', 'sort', 'pop', 'update',
         'isValue', 'clone', 'tagSet', 'componentType', 'name', 'class', 'from', 'in', 'is', 'lambda', 'int', 'str', 'len', 'print',
         'min', 'max', 'self', 'object', 'type', 'list', 'encode', 'decode', 'effectiveTagSet', 'subtype', 'namedValues', 'size']


class T(gen.G):
    def __init__(self, r, traps=0.06, **kw):
        gen.G.__init__(self, r, **kw)
        self.traps = traps
        self.used = []

    def ident(self):
        self.names += 1
        r = self.r
        if r.random() < self.traps:
            n = r.choice(TRAPS) + ('' if r.random() < 0.5 else str(self.names))
        else:
            base = r.choice(('a', 'id', 'ue', 'cause', 'msg', 'info', 'ie', 'xY', 'n', 'e', 'boolean', 'integer', 'optional'))
            n = '%s%s%d' % (base, r.choice(('X', '-', '-item-', 'List', '')), self.names)
        self.used.append(n)
        return n

    def t_enum(self):
        r = self.r
        n = r.choice((1, 2, 3, 4, 5, 9, 17))
        ext = r.random() < 0.5
        m = r.choice((0, 1, 2, 3)) if ext else 0
        ns = [self.item() + str(i) for i in range(n + m)]
        self.used += ns
        return {'k': 'enum', 'root': ns[:n], 'ext': ext, 'adds': ns[n:]}

    def item(self):
        return self.r.choice(('e', 'rel-', 'true', 'spare', 'kB', 'class', 'max'))


def distinct(fs, seen=None):
    seen = set() if seen is None else seen
    for f in fs:
        while f['n'] in seen:
            f['n'] += 'z'
        seen.add(f['n'])


class M(object):
    """Turns IR types into a module: decides what is named, aliased, inline, constant."""

    def __init__(self, r, g, inline=0.5, consts=0.3):
        self.r, self.g, self.inline, self.consts = r, g, inline, consts
        self.defs = []
        self.made = {}
        self.taken = set()
        self.n = 0

    def tname(self):
        self.n += 1
        r = self.r
        return '%s%s%d' % (r.choice(('Type', 'UE-Id', 'T', 'Message', 'Ie', 'ENUM', 'Integer', 'A', 'List')), r.choice(('', '-', 'x')), self.n)

    def vname(self):
        r = self.r
        while True:
            self.n += 1
            if r.random() < self.g.traps * 2:         # values may be named like anything but other values
                n = r.choice(TRAPS + self.g.used * 4)
            else:
                n = '%s%s%d' % (r.choice(('c', 'max', 'my-const', 'k')), r.choice(('', '-', 'No')), self.n)
            if n not in self.taken:
                self.taken.add(n)
                return n

    def const(self, t, v, hint=None):
        """A value definition of (some type like) t with value v; returns its name."""
        r = self.r
        for d in self.defs:
            if d[0] == 'value' and text.constant(None, d[3], text.defs_of({'defs': self.defs})) == v and type(text.constant(None, d[3], text.defs_of({'defs': self.defs}))) is type(v) and (hint is None or d[2] == hint or r.random() < 0.5 and same_enum(self.defs, d[2], hint)) and text.resolve({'defs': self.defs}, d[2])['k'] == t['k'] and r.random() < 0.5:
                return d[1]
        if t['k'] == 'int':
            wt = r.choice(({'k': 'int', 'lb': None, 'ub': None, 'ext': False}, {'k': 'int', 'lb': None, 'ub': None, 'ext': False},
                           {'k': 'int', 'lb': v - r.choice((0, 1, 5)), 'ub': v + r.choice((0, 1, 300)), 'ext': r.random() < 0.2}))
        elif t['k'] == 'bool':
            wt = {'k': 'bool'}
        elif t['k'] == 'enum':
            wt = hint
        else:
            wt = {'k': t['k'], 'lb': None, 'ub': None, 'ext': False}
        if 'lb' in wt and wt['lb'] is not None and t['k'] == 'int' or r.random() < 0.3 and 'ref' not in wt:
            wt = self.named(wt)     # value definitions of inline constrained types are not in the supported notation
        n = self.vname()
        if r.random() < 0.3:       # by reference to another value
            c = self.const(t, v, hint)
            if t['k'] != 'enum' or c not in t['root'] + t['adds']:
                v = {'c': c}
            if t['k'] == 'enum' and r.random() < 0.4:
                wt = self.alias(wt)
        self.defs.append(['value', n, wt, v, r.randrange(12)])
        return n

    def alias(self, wt):
        a = self.tname()
        self.defs.append(['type', a, wt])
        return {'ref': a}

    def named(self, wt):
        r = self.r
        n = self.tname()
        self.defs.append(['type', n, wt])
        while r.random() < 0.25:
            a = self.tname()
            self.defs.append(['type', a, {'ref': n}])
            n = a
        return {'ref': n}

    def write(self, t, top=False):
        r = self.r
        key = repr(t)
        if key in self.made and r.random() < 0.8:
            return {'ref': self.made[key]}
        wt = dict(t, how=r.randrange(840))
        k = t['k']
        if k == 'seqof':
            wt['elem'] = self.write(t['elem'])
        if k in ('seq', 'choice'):
            def fld(f):
                f = dict(f, t=self.write(f['t']), how=r.randrange(12))
                if f.get('o') == 'd' and r.random() < self.consts:
                    ft = text.resolve({'defs': self.defs}, f['t'])
                    if ft['k'] in ('bool', 'int', 'octs', 'bits'):
                        f['d'] = {'c': self.const(ft, f['d'])}
                    elif ft['k'] == 'enum' and 'ref' in f['t']:
                        c = self.const(ft, f['d'], f['t'])
                        if c not in ft['root'] + ft['adds']:      # that would be the item
                            f['d'] = {'c': c}
                return f
            wt['root'] = [fld(f) for f in t['root']]
            wt['adds'] = [fld(f) for f in t['adds']]
            wt['groups'] = [[fld(f) for f in x] for x in t['groups']]
            if k == 'seq' and t['ext'] and len(t['root']) > 1 and r.random() < 0.2:
                wt['tail'] = r.randrange(1, len(t['root']))
        if k in ('int', 'bits', 'octs', 'seqof'):
            for e in ('lb', 'ub'):
                if t[e] is not None and r.random() < self.consts * 0.6:
                    wt[e] = {'c': self.const({'k': 'int'}, t[e])}
        if top or r.random() > self.inline:
            ref = self.named(wt)
            self.made[key] = ref['ref']
            return ref
        return wt

    def module(self, order=None):
        r = self.r
        ds = list(self.defs)
        c = r.random() if order is None else order
        if c < 0.5:
            r.shuffle(ds)
        elif c < 0.7:
            ds.reverse()
        return {'name': r.choice(('Mod', 'My-Module', 'Proto2')), 'defs': ds, 'tags': r.random() < 0.8}


def same_enum(defs, a, b):
    """Are a and b names of the same type?"""
    ds = text.defs_of({'defs': defs})

    def end(w):
        while 'ref' in ds[w['ref']][2]:
            w = ds[w['ref']][2]
        return w['ref']
    return 'ref' in a and 'ref' in b and end(a) == end(b)


def names_distinct(t):
    for x in ir.walk(t):
        if x['k'] in ('seq', 'choice'):
            distinct(ir.alts(x))
    return t


def make(r, extra=(), depth=None, traps=0.06, inline=None, consts=None):
    """A module and the names of its main types."""
    depth = depth or r.choice((1, 1, 2, 2, 3))
    g = T(r, traps, extra=extra, depth=depth, max_len=12)
    m = M(r, g, r.choice((0.1, 0.5, 0.5, 0.9)) if inline is None else inline, r.choice((0, 0.3, 0.6)) if consts is None else consts)
    tops = []
    for _ in range(r.choice((1, 1, 2, 3))):
        for _ in range(30):
            t = names_distinct(g.type())
            if sum(1 for _ in ir.walk(t)) < 25:
                break
        else:
            t = {'k': 'bool'}
        tops.append(m.write(t, True)['ref'])
    for _ in range(r.choice((0, 0, 1, 2))):
        t = g.t_simple()
        if t['k'] in ('bool', 'int', 'bits', 'octs'):
            m.const(t, g.value(t))
        elif t['k'] == 'enum':
            m.const(t, g.r.choice(t['root'] + t['adds']), m.write(t, True))
    return m.module(), tops
