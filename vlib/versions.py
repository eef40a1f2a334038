"""Older versions of an extensible type, and what an older receiver sees of a newer message."""
from . import ir


class Unknown(Exception):
    """The message uses an item or alternative the receiver does not know."""


def older(t, r, keep=None, p=0.8):
    """A version of t with a tail of the extension additions taken away, at any depth.
    keep: a value that must stay in the type (a DEFAULT)."""
    k = t['k']
    if k == 'enum':
        n = len(t['adds'])
        if not n or r.random() > p:
            return t
        n = r.choice((0, n - 1, r.randrange(n + 1)))
        if keep in t['adds']:
            n = max(n, t['adds'].index(keep) + 1)
        return dict(t, adds=t['adds'][:n])
    if k == 'seqof':
        return dict(t, elem=older(t['elem'], r, p=p))
    if k == 'choice':
        return _cut(t, r, p, lambda a: dict(a, t=older(a['t'], r, p=p)))
    if k == 'seq':
        return _cut(t, r, p, lambda f: dict(f, t=older(f['t'], r, keep=f.get('d'), p=p)))
    return t


def _cut(t, r, p, down):
    adds, groups = t['adds'], t['groups']
    if (adds or groups) and r.random() < p:
        n = len(adds) + len(groups)
        n = r.choice((0, n - 1, r.randrange(n + 1)))
        adds, groups = adds[:n], groups[:max(0, n - len(adds))]
    return dict(t, root=[down(f) for f in t['root']], adds=[down(f) for f in adds],
                groups=[[down(f) for f in g] for g in groups])


def project(t, v):
    """v of a newer version, as a receiver that knows t should see it."""
    k = t['k']
    if k == 'enum':
        if v not in t['root'] and v not in t['adds']:
            raise Unknown(v)
        return v
    if k == 'seqof':
        return [project(t['elem'], x) for x in v]
    if k == 'choice':
        for a in ir.alts(t):
            if a['n'] == v[0]:
                return (v[0], project(a['t'], v[1]))
        raise Unknown(v[0])
    if k == 'seq':
        return {f['n']: project(f['t'], v[f['n']]) for f in ir.alts(t) if f['n'] in v}
    return v


def differs(a, b):
    """Number of places where versions a and b differ."""
    k = a['k']
    if k == 'enum':
        return int(a['adds'] != b['adds'])
    if k == 'seqof':
        return differs(a['elem'], b['elem'])
    if k in ('seq', 'choice'):
        m = {f['n']: f for f in ir.alts(b)}
        return (len(ir.ext_alts(a)) != len(ir.ext_alts(b))) + sum(differs(f['t'], m[f['n']]['t']) for f in ir.alts(a) if f['n'] in m)
    return 0
