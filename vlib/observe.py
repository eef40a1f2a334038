"""Observations of library objects that do not change them, and the model of to_dict."""
from collections import OrderedDict
from pyasn1.type.univ import noValue
from . import ir


def peek(n, o):
    """Everything a user can read off o, without instantiating components."""
    if o is noValue:
        return None
    k = n.t['k']
    if k == 'seq':
        return (type(o).__name__, o.isValue,
                tuple((f['n'], peek(n.sub[f['n']], o.getComponentByName(f['n'], instantiate=False))) for f in ir.alts(n.t)))
    if k == 'seqof':
        return (type(o).__name__, o.isValue, tuple(peek(n.sub['elem'], x) for x in o))
    if k == 'choice':
        if not o.isValue:
            return (type(o).__name__, False)
        return (type(o).__name__, True, str(o.getName()), peek(n.sub[str(o.getName())], o.getComponent()))
    return (type(o).__name__, o.isValue, n.read(o) if o.isValue else None)


def value(n, o):
    """Node.read without instantiating anything; DEFAULT components that are not set are taken from the type."""
    k = n.t['k']
    if k == 'seq':
        out = {}
        for f in ir.alts(n.t):
            c = o.getComponentByName(f['n'], instantiate=False)
            if c is not noValue:
                out[f['n']] = value(n.sub[f['n']], c)
            elif f['o'] == 'd':
                out[f['n']] = f['d']
        return out
    if k == 'seqof':
        return [value(n.sub['elem'], x) for x in o]
    if k == 'choice':
        return (str(o.getName()), value(n.sub[str(o.getName())], o.getComponent()))
    return n.read(o)


def full(n, o):
    if not o.isValue:       # pyasn1 cannot print every type object
        return (peek(n, o),)
    return (peek(n, o), str(o))


def nodes(n, seen=None):
    seen = {} if seen is None else seen
    if id(n) not in seen:
        seen[id(n)] = n
        for c in n.sub.values():
            nodes(c, seen)
    return list(seen.values())


def schema(n):
    """What the classes of n define."""
    out = []
    for x in nodes(n):
        c = x.cls
        s = c.subtypeSpec
        e = [c.__name__, getattr(s, 'lowerEndpoint', None), getattr(s, 'upperEndpoint', None), bool(getattr(s, 'extensionMarker', False))]
        k = x.t['k']
        if k == 'enum':
            e += [str(c.namedValues), str(c.enumerationRoot), str(c.extensionAddition)]
        elif k == 'seqof':
            e += [type(c.componentType).__name__, peek(x.sub['elem'], c.componentType)]
        elif k in ('seq', 'choice'):
            for part in [c.rootComponent, c.extensionAddition] + list(c.extensionAdditionGroups or []) + [c.componentType]:
                if part is None:
                    e.append(None)
                    continue
                e.append([(nt.name, nt.isOptional, nt.isDefaulted, peek(x.sub[nt.name], nt.asn1Object)) for nt in part.namedTypes])
        out.append(e)
    return repr(out)


def as_dict(t, v):
    """The model of to_dict for value v of type t (v need not have its defaults spelled out)."""
    return _dict(t, ir.complete(t, v))


def _dict(t, v):
    k = t['k']
    if k in ('bool', 'int', 'enum'):
        return v
    if k == 'bits':
        return int(v, 2) if v else 0
    if k == 'octs':
        return v.hex()
    if k == 'seqof':
        return [_dict(t['elem'], x) for x in v]
    if k == 'choice':
        return {v[0]: _dict([a for a in ir.alts(t) if a['n'] == v[0]][0]['t'], v[1])}
    return OrderedDict((f['n'], _dict(f['t'], v[f['n']])) for f in ir.alts(t) if f['n'] in v)


def same(a, b):
    """Equal with types and key order."""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[x], b[x]) for x in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def as_text(n, v, scope=0):
    """The model of str() for a value: every component that was set, in schema order, under its name."""
    k = n.t['k']
    if k in ('bool', 'int', 'enum'):
        return str(v)
    if k == 'bits':
        return str(int(v or '0', 2))
    if k == 'octs':
        return '0x' + v.hex() if any(x < 32 or x > 126 for x in v) else v.decode('ascii')
    out = n.cls.__name__ + ':\n'
    pad = ' ' * (scope + 1)
    if k == 'seqof':
        return out + ''.join(pad + as_text(n.sub['elem'], x, scope + 1) for x in v)
    if k == 'choice':
        v = {v[0]: v[1]}
    for f in ir.alts(n.t):
        if f['n'] in v:
            out += '%s%s=%s\n' % (pad, f['n'], as_text(n.sub[f['n']], v[f['n']], scope + 1))
    return out


def value2(n, o):
    """value(), with DEFAULT components read off the object (generated classes: the default is theirs to know)."""
    k = n.t['k']
    if k == 'seq':
        out = {}
        for f in ir.alts(n.t):
            c = o.getComponentByName(f['n'], instantiate=False)
            if c is noValue and f['o'] == 'd':
                c = o.getComponentByName(f['n'])
            if c is not noValue:
                out[f['n']] = value2(n.sub[f['n']], c)
        return out
    if k == 'seqof':
        return [value2(n.sub['elem'], x) for x in o]
    if k == 'choice':
        return (str(o.getName()), value2(n.sub[str(o.getName())], o.getComponent()))
    return n.read(o)
