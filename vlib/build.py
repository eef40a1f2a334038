"""IR -> asn1PERser classes (written the way the README writes them), plain values <-> library objects."""
import zlib
from pyasn1.type.namedtype import NamedType, OptionalNamedType, DefaultedNamedType
from pyasn1.type.namedval import NamedValues
from pyasn1.type.univ import noValue
from asn1PERser.classes.data.builtin import (BooleanType, IntegerType, EnumeratedType, BitStringType,
                                             OctetStringType, SequenceOfType, SequenceType, ChoiceType)
from asn1PERser.classes.types.type import AdditiveNamedTypes
from asn1PERser.classes.types.constraint import (MIN, MAX, ExtensionMarker, SequenceOfValueSize, ValueRange, ValueSize)
from . import ir

_n = [0]


def _name(prefix):
    # names are not unique: classes nested in different types of a schema may well have the same one
    _n[0] += 1
    return '%s%d' % (prefix, _n[0] % 3)


class Node(object):
    """A type with its library class. `sub` maps field names (or 'elem') to child Nodes."""

    def __init__(self, t, cls, sub):
        self.t, self.cls, self.sub = t, cls, sub

    # plain value -> library object --------------------------------------
    def make(self, v, how=0):
        """how: 0 = typed component objects; 1 = alternative spellings of the same thing (bytes / hex,
        plain Python scalars for simple components, enumeration by number)."""
        k, cls = self.t['k'], self.cls
        if k == 'bool':
            return cls(v)
        if k == 'int':
            return cls(v)
        if k == 'enum':
            if how and v in self.t['root'] + self.t['adds']:
                return cls((self.t['root'] + self.t['adds']).index(v))
            return cls(v)
        if k == 'bits':
            if v == '':
                return cls('')
            if how and len(v) % 4 == 0:
                return cls(hexValue=format(int(v, 2), '0%dx' % (len(v) // 4)))
            return cls(binValue=v)
        if k == 'octs':
            if how:
                return cls(v)
            return cls(hexValue=v.hex())
        if k == 'seqof':
            o = cls().clear()
            e = self.sub['elem']
            if how:
                for x in v:
                    o.append(e.make(x, how))
            else:
                o.extend([e.make(x, how) for x in v])
            return o
        if k == 'seq':
            o = cls().clear()
            for f in ir.alts(self.t):
                if f['n'] in v:
                    c = self.sub[f['n']]
                    if how and c.t['k'] in ('bool', 'int'):
                        o[f['n']] = v[f['n']]
                    else:
                        o[f['n']] = c.make(v[f['n']], how)
            return o
        if k == 'choice':
            o = cls()
            o[v[0]] = self.sub[v[0]].make(v[1], how)
            return o
        raise AssertionError(k)

    # library object -> plain value --------------------------------------
    def read(self, o):
        k = self.t['k']
        if k == 'bool':
            if not o.isValue:
                raise ReadError('no value')
            return bool(o)
        if k == 'int':
            return int(o)
        if k == 'enum':
            return str(o.namedValues[int(o)])
        if k == 'bits':
            return ''.join(str(b) for b in o) if len(o) else ''
        if k == 'octs':
            return bytes(o)
        if k == 'seqof':
            e = self.sub['elem']
            return [e.read(x) for x in o]
        if k == 'choice':
            name = str(o.getName())
            return (name, self.sub[name].read(o.getComponent()))
        if k == 'seq':
            out = {}
            for f in ir.alts(self.t):
                n = f['n']
                c = o.getComponentByName(n, instantiate=False)
                if c is noValue and f['o'] == 'd':
                    c = o.getComponentByName(n)
                if c is not noValue:
                    out[n] = self.sub[n].read(c)
            return out
        raise AssertionError(k)


class ReadError(Exception):
    pass


def build(t, name=None, memo=None):
    """memo: a dict makes equal types share one class, as a named type of a schema is shared."""
    if memo is not None:
        key = repr(t)
        if key not in memo:
            memo[key] = _build(t, name, memo)
        return memo[key]
    return _build(t, name, None)


def _build(t, name, memo):
    k = t['k']
    name = name or _name(k.capitalize())
    if k == 'bool':
        return Node(t, type(name, (BooleanType,), {}), {})
    lo = MIN if t.get('lb') is None else t.get('lb')
    hi = MAX if t.get('ub') is None else t.get('ub')
    spell = zlib.crc32(repr([t.get(x) for x in ('k', 'lb', 'ub', 'ext')]).encode())
    if k in ('bits', 'octs', 'seqof') and not t.get('lb'):      # two ways to say it
        lo = MIN if spell % 2 else 0
    if spell % 5 == 0:          # endpoints given by value references
        lo, hi = [IntegerType(x) if isinstance(x, int) else x for x in (lo, hi)]
    if k == 'int':
        ns = {}
        if not (t['lb'] is None and t['ub'] is None and not t['ext']):
            ns['subtypeSpec'] = ValueRange(lo, hi, extensionMarker=True) if t['ext'] else ValueRange(lo, hi)
        return Node(t, type(name, (IntegerType,), ns), {})
    if k in ('bits', 'octs'):
        ns = {}
        if not (t['lb'] is None and t['ub'] is None and not t['ext']):
            ns['subtypeSpec'] = ValueSize(lo, hi, extensionMarker=True) if t['ext'] else ValueSize(lo, hi)
        return Node(t, type(name, (BitStringType if k == 'bits' else OctetStringType,), ns), {})
    if k == 'enum':
        ns = {}
        if t['ext']:
            ns['subtypeSpec'] = ExtensionMarker(True)
        ns['enumerationRoot'] = NamedValues(*[(n, i) for i, n in enumerate(t['root'])])
        if t['adds']:
            ns['extensionAddition'] = NamedValues(*[(n, i + len(t['root'])) for i, n in enumerate(t['adds'])])
            ns['namedValues'] = ns['enumerationRoot'] + ns['extensionAddition']
        else:
            ns['namedValues'] = ns['enumerationRoot']
        return Node(t, type(name, (EnumeratedType,), ns), {})
    if k == 'seqof':
        e = build(t['elem'], None, memo)
        ns = {'componentType': e.cls()}
        if not (t['lb'] in (None, 0) and t['ub'] is None and not t['ext']):
            ns['subtypeSpec'] = SequenceOfValueSize(lo, hi, extensionMarker=True) if t['ext'] else SequenceOfValueSize(lo, hi)
        return Node(t, type(name, (SequenceOfType,), ns), {'elem': e})
    sub = {}

    def named(f):
        c = build(f['t'], None, memo)
        sub[f['n']] = c
        o = f.get('o', 'm')
        if o == 'o':
            return OptionalNamedType(f['n'], c.cls())
        if o == 'd':
            return DefaultedNamedType(f['n'], c.make(f['d']))
        return NamedType(f['n'], c.cls())

    ns = {}
    if t['ext']:
        ns['subtypeSpec'] = ExtensionMarker(True)
    comp = ns['rootComponent'] = AdditiveNamedTypes(*[named(f) for f in t['root']])
    if t['adds']:
        ns['extensionAddition'] = AdditiveNamedTypes(*[named(f) for f in t['adds']])
        comp = comp + ns['extensionAddition']
    if t['groups']:
        ns['extensionAdditionGroups'] = [AdditiveNamedTypes(*[named(f) for f in g]) for g in t['groups']]
        comp = comp + ns['extensionAdditionGroups']
    ns['componentType'] = comp
    return Node(t, type(name, (SequenceType if k == 'seq' else ChoiceType,), ns), sub)
