"""Smaller (type, value) pairs for witnesses."""
from . import ir


def _types(t, v):
    k = t['k']
    if k == 'seqof':
        for x in v:
            yield t['elem'], x
    elif k == 'choice':
        for a in ir.alts(t):
            if a['n'] == v[0]:
                yield a['t'], v[1]
    elif k == 'seq':
        for f in ir.alts(t):
            if f['n'] in v:
                yield f['t'], v[f['n']]


def shrink(t, v):
    """Yield smaller (t, v). Order: big steps first."""
    k = t['k']
    for ct, cv in _types(t, v):
        yield ct, cv
    if k == 'seq':
        for part in ('groups', 'adds', 'root'):
            if part == 'groups':
                for i in range(len(t['groups'])):
                    gs = t['groups'][:i] + t['groups'][i + 1:]
                    names = {f['n'] for f in t['groups'][i]}
                    yield dict(t, groups=gs), {n: x for n, x in v.items() if n not in names}
                    for j in range(len(t['groups'][i])):
                        if len(t['groups'][i]) > 1:
                            g = t['groups'][i][:j] + t['groups'][i][j + 1:]
                            yield (dict(t, groups=t['groups'][:i] + [g] + t['groups'][i + 1:]),
                                   {n: x for n, x in v.items() if n != t['groups'][i][j]['n']})
            else:
                for i in range(len(t[part])):
                    if part == 'root' and len(t['root']) == 1:
                        continue
                    yield (dict(t, **{part: t[part][:i] + t[part][i + 1:]}),
                           {n: x for n, x in v.items() if n != t[part][i]['n']})
        if t['ext'] and not t['adds'] and not t['groups']:
            yield dict(t, ext=False), v
        for part in ('root', 'adds'):
            for i, f in enumerate(t[part]):
                if f['o'] != 'm' and f['n'] in v:
                    yield t, {n: x for n, x in v.items() if n != f['n']}
                if f['n'] in v and f['o'] != 'd':
                    for ct, cv in shrink(f['t'], v[f['n']]):
                        fs = t[part][:i] + [dict(f, t=ct)] + t[part][i + 1:]
                        yield dict(t, **{part: fs}), dict(v, **{f['n']: cv})
        for gi, g in enumerate(t['groups']):
            for i, f in enumerate(g):
                if f['n'] in v and f['o'] != 'd':
                    for ct, cv in shrink(f['t'], v[f['n']]):
                        ng = g[:i] + [dict(f, t=ct)] + g[i + 1:]
                        yield (dict(t, groups=t['groups'][:gi] + [ng] + t['groups'][gi + 1:]),
                               dict(v, **{f['n']: cv}))
    elif k == 'choice':
        for part in ('root', 'adds'):
            for i in range(len(t[part])):
                if t[part][i]['n'] != v[0] and not (part == 'root' and len(t['root']) == 1):
                    yield dict(t, **{part: t[part][:i] + t[part][i + 1:]}), v
        for i in range(len(t['groups'])):
            if v[0] not in [a['n'] for a in t['groups'][i]]:
                yield dict(t, groups=t['groups'][:i] + t['groups'][i + 1:]), v
        for part in ('root', 'adds'):
            for i, a in enumerate(t[part]):
                if a['n'] == v[0]:
                    for ct, cv in shrink(a['t'], v[1]):
                        yield dict(t, **{part: t[part][:i] + [dict(a, t=ct)] + t[part][i + 1:]}), (v[0], cv)
                elif a['t']['k'] != 'bool':
                    yield dict(t, **{part: t[part][:i] + [dict(a, t={'k': 'bool'})] + t[part][i + 1:]}), v
    elif k == 'seqof':
        for i in range(len(v)):
            w = v[:i] + v[i + 1:]
            if ir.valid(t, w):
                yield t, w
        if len(v) == 1:
            for ct, cv in shrink(t['elem'], v[0]):
                yield dict(t, elem=ct), [cv]
    elif k in ('bits', 'octs'):
        if len(v) > 1:
            for w in (v[:len(v) // 2], v[:-1]):
                if ir.valid(t, w):
                    yield t, w
        z = '0' * len(v) if k == 'bits' else bytes(len(v))
        if v != z:
            yield t, z
    elif k == 'enum':
        for n in t['root']:
            if n != v and len(t['root']) > 1:
                yield dict(t, root=[x for x in t['root'] if x != n]), v
                break
        for n in t['adds']:
            if n != v:
                yield dict(t, adds=[x for x in t['adds'] if x != n]), v
                break
    elif k == 'int':
        for w in (0, t['lb'], t['ub']):
            if w is not None and w != v and abs(w) < abs(v) and ir.valid(t, w):
                yield t, w
