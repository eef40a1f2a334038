"""Schemas as text. A module is

  {'name': str, 'defs': [['type', name, wt] | ['value', name, wt, value]]}

where a written type wt is an IR type whose parts may be written types, or {'ref': name}; lb, ub of a constraint and
the 'd' of a field may be {'c': name of a value definition}. `resolve` gives the IR type it stands for, `tokens` its
lexical items (X.680), `layout` joins them."""
from . import ir

MINMAX = 'how'          # written types may carry spelling hints under this key


def defs_of(m):
    return {d[1]: d for d in m['defs']}


def resolve(m, wt, ds=None):
    ds = ds or defs_of(m)
    if 'ref' in wt:
        return resolve(m, ds[wt['ref']][2], ds)
    t = {k: v for k, v in wt.items() if k != 'how'}
    for e in ('lb', 'ub'):
        if e in t:
            t[e] = constant(m, t[e], ds)
    if 'elem' in t:
        t['elem'] = resolve(m, t['elem'], ds)
    if t['k'] in ('seq', 'choice'):
        def fld(f):
            f = dict(f, t=resolve(m, f['t'], ds))
            if f.get('o') == 'd':
                f['d'] = constant(m, f['d'], ds)
            return f
        t['root'] = [fld(f) for f in t['root']]
        t['adds'] = [fld(f) for f in t['adds']]
        t['groups'] = [[fld(f) for f in g] for g in t['groups']]
        t.pop('tail', None)
    return t


def constant(m, v, ds):
    while isinstance(v, dict) and 'c' in v:
        v = ds[v['c']][3]
    return v


def number(v):
    return [str(v)] if v >= 0 else ['-' + str(-v)]


def value(t, v, style=0):
    if isinstance(v, dict) and 'c' in v:
        return [v['c']]
    k = t['k']
    if k == 'bool':
        return ['TRUE' if v else 'FALSE']
    if k == 'int':
        return number(v)
    if k == 'enum':
        return [v]
    if k == 'bits':
        if style % 2 and len(v) % 4 == 0:
            return ["'%s'H" % (format(int(v, 2), '0%dX' % (len(v) // 4)) if v else '')]
        return ["'%s'B" % v]
    if k == 'octs':
        if style % 3 == 2:
            return ["'%s'B" % ''.join(format(b, '08b') for b in v)]
        return ["'%s'H" % v.hex().upper()]
    raise AssertionError(k)


def endpoint(v, none):
    if v is None:
        return [none]
    if isinstance(v, dict):
        return [v['c']]
    return number(v)


def rng(wt, style=0):
    """lb..ub without the parentheses; extension marker included."""
    lb, ub = wt['lb'], wt['ub']
    if lb == ub and lb is not None and style % 3 != 2:
        out = endpoint(lb, 'MIN')
    else:
        lo = endpoint(lb, 'MIN')
        out = lo + ['..'] + endpoint(ub, 'MAX')
    if wt['ext']:
        out += [',', '...']
        if style % 5 == 4:
            out += [',', '100000', '..', '100001']
    return out


def size(wt):
    if wt['lb'] is None and wt['ub'] is None and not wt['ext']:
        return []
    s = wt.get('how', 0)
    w = dict(wt, lb=0 if wt['lb'] is None and s % 2 == 0 else wt['lb'])
    if s % 7 == 6 and wt['ext']:        # the marker outside SIZE
        return ['(', 'SIZE', '('] + rng(dict(w, ext=False), s) + [')', ',', '...', ')']
    return ['(', 'SIZE', '('] + rng(w, s) + [')', ')']


def tokens(m, wt):
    if 'ref' in wt:
        return [wt['ref']]
    k = wt['k']
    s = wt.get('how', 0)
    if k == 'bool':
        return ['BOOLEAN']
    if k == 'int':
        out = ['INTEGER']
        if s % 11 == 10:
            out += ['{', 'one', '(', '1', ')', ',', 'minus', '(', '-2', ')', '}']
        if wt['lb'] is None and wt['ub'] is None and not wt['ext']:
            return out
        return out + ['('] + rng(wt, s) + [')']
    if k == 'enum':
        return ['ENUMERATED', '{'] + items(wt) + ['}']
    if k in ('bits', 'octs'):
        return (['BIT', 'STRING'] if k == 'bits' else ['OCTET', 'STRING']) + size(wt)
    if k == 'seqof':
        return ['SEQUENCE'] + size(wt) + ['OF'] + tokens(m, wt['elem'])
    out = []

    def many(fs):
        o = []
        for f in fs:
            if o:
                o.append(',')
            o += [f['n']] + tokens(m, f['t'])
            if f.get('o') == 'o':
                o.append('OPTIONAL')
            elif f.get('o') == 'd':
                o += ['DEFAULT'] + value(resolve(m, f['t']), f['d'], f.get('how', 0))
        return o
    tail = wt.get('tail', 0) if wt['ext'] else 0       # root components written after the second marker
    parts = []
    root = wt['root'][:len(wt['root']) - tail]
    if root:
        parts.append(many(root))
    if wt['ext']:
        parts.append(['...'])
        if wt['adds']:
            parts.append(many(wt['adds']))
        for i, g in enumerate(wt['groups']):
            ver = [str(i + 2), ':'] if s % 3 == 1 else []
            parts.append(['[['] + ver + many(g) + [']]'])
        if tail:
            parts += [['...'], many(wt['root'][len(wt['root']) - tail:])]
        elif s % 5 == 1 and k == 'seq' or s % 5 == 1 and k == 'choice':
            parts.append(['...'])
    for p in parts:
        if out:
            out.append(',')
        out += p
    return ['SEQUENCE' if k == 'seq' else 'CHOICE', '{'] + out + ['}']


def items(wt):
    s = wt.get('how', 0)
    root = list(wt['root'])
    if s % 4 == 3:          # explicit numbers, written in another order: the order of the numbers counts (X.691 14.1)
        num = {n: i * 3 + (s % 5) - (7 if s % 13 == 12 else 0) for i, n in enumerate(root)}
        order = sorted(root, key=lambda n: (hash_of(n, s), n))
        out = [[n, '('] + number(num[n]) + [')'] for n in order]
    elif s % 4 == 2 and s % 3:      # numbers for some: the others get the numbers that are left, in their order
        shown = [n for n in root if hash_of(n, s) % 2]
        rest = [n for n in root if n not in shown]
        shown.sort(key=lambda n: (hash_of(n, s + 1), n))
        out = [[n] for n in rest]
        for n in shown:
            out.insert(hash_of(n, s + 2) % (len(out) + 1), [n, '(', str(root.index(n)), ')'])
    else:
        out = [[n] for n in root]
    if wt['ext']:
        out.append(['...'])
        if s % 4 == 3:
            low = 1000 if s % 3 or not root else max(i * 3 + (s % 5) for i in range(len(root))) + 1
            out += [[n, '(', str(low + i * 2), ')'] for i, n in enumerate(wt['adds'])]
        else:
            out += [[n] for n in wt['adds']]
    flat = []
    for i, x in enumerate(out):
        if i:
            flat.append(',')
        flat += x
    return flat


def hash_of(n, s):
    return sum((i + 7) * ord(c) for i, c in enumerate(n)) * (s + 13) % 1009


def module_tokens(m):
    out = [m['name'], 'DEFINITIONS'] + (['AUTOMATIC', 'TAGS'] if m.get('tags', True) else []) + ['::=', 'BEGIN']
    for d in m['defs']:
        out.append('\n')
        if d[0] == 'type':
            out += [d[1], '::='] + tokens(m, d[2])
        else:
            out += [d[1]] + tokens(m, d[2]) + ['::='] + value(resolve(m, d[2]), d[3], d[4] if len(d) > 4 else 0)
    return out + ['\n', 'END']


def plain(m):
    s = ''
    for x in module_tokens(m):
        if x == '\n':
            s += '\n'
        else:
            s += (' ' if s and not s.endswith('\n') else '') + x
    return s + '\n'


def python_name(n):
    import keyword
    n = n.replace('-', '_')
    return n + '_' if keyword.iskeyword(n) else n
