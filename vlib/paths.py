"""Places inside a value: enumerate, read, replace; replace inside a library object."""
from . import ir


def places(t, v, path=()):
    """Yield (path, type, value) of every component value, the whole included."""
    yield path, t, v
    k = t['k']
    if v is None:
        return
    if k == 'seqof':
        for i, x in enumerate(v):
            yield from places(t['elem'], x, path + (i,))
    elif k == 'choice':
        for a in ir.alts(t):
            if a['n'] == v[0]:
                yield from places(a['t'], v[1], path + (v[0],))
    elif k == 'seq':
        for f in ir.alts(t):
            if f['n'] in v:
                yield from places(f['t'], v[f['n']], path + (f['n'],))


def replaced(v, path, x):
    if not path:
        return x
    p = path[0]
    if isinstance(v, tuple):
        return (v[0], replaced(v[1], path[1:], x))
    if isinstance(v, list):
        return v[:p] + [replaced(v[p], path[1:], x)] + v[p + 1:]
    return dict(v, **{p: replaced(v[p], path[1:], x)})


def type_at(t, path):
    for p in path:
        t = t['elem'] if t['k'] == 'seqof' else [a for a in ir.alts(t) if a['n'] == p][0]['t']
    return t


def node_at(n, path):
    for p in path:
        n = n.sub['elem' if n.t['k'] == 'seqof' else p]
    return n


def put(o, path, x):
    """o.path = x on a library object, the way a user writes it."""
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = x
