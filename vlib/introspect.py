"""Library object -> IR type (used to validate the reference codec on the repository's own test vectors)."""
from asn1PERser.classes.data.builtin import (BooleanType, IntegerType, EnumeratedType, BitStringType,
                                             OctetStringType, SequenceOfType, SequenceType, ChoiceType)
from . import build


class Cannot(Exception):
    pass


def _bounds(o):
    s = o.subtypeSpec
    lo, hi = s.lowerEndpoint, s.upperEndpoint
    return {'lb': None if lo is None else int(lo), 'ub': None if hi is None else int(hi), 'ext': bool(s.extensionMarker)}


def node(o):
    """build.Node for the class of o."""
    cls = o.__class__
    if isinstance(o, BooleanType):
        return build.Node({'k': 'bool'}, cls, {})
    if isinstance(o, EnumeratedType):
        root = [str(n) for n in o.enumerationRoot]
        adds = [str(n) for n in o.extensionAddition] if o.extensionAddition else []
        return build.Node({'k': 'enum', 'root': root, 'ext': bool(o.subtypeSpec.extensionMarker), 'adds': adds}, cls, {})
    if isinstance(o, IntegerType):
        return build.Node(dict(_bounds(o), k='int'), cls, {})
    if isinstance(o, BitStringType):
        return build.Node(dict(_bounds(o), k='bits'), cls, {})
    if isinstance(o, OctetStringType):
        return build.Node(dict(_bounds(o), k='octs'), cls, {})
    if isinstance(o, SequenceOfType):
        e = node(o.componentType)
        return build.Node(dict(_bounds(o), k='seqof', elem=e.t), cls, {'elem': e})
    if isinstance(o, (SequenceType, ChoiceType)):
        sub = {}
        seq = isinstance(o, SequenceType)

        def field(nt):
            c = node(nt.asn1Object)
            name = str(nt.name)
            sub[name] = c
            f = {'n': name, 't': c.t}
            if seq:
                f['o'] = 'o' if nt.isOptional else 'd' if nt.isDefaulted else 'm'
                if nt.isDefaulted:
                    f['d'] = c.read(nt.asn1Object)
            return f
        t = {'k': 'seq' if seq else 'choice', 'root': [field(x) for x in o.rootComponent.namedTypes],
             'ext': bool(o.subtypeSpec.extensionMarker),
             'adds': [field(x) for x in o.extensionAddition.namedTypes] if o.extensionAddition else [],
             'groups': [[field(x) for x in g.namedTypes] for g in o.extensionAdditionGroups or []]}
        return build.Node(t, cls, sub)
    raise Cannot(cls.__name__)
