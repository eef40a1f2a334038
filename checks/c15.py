"""C15 Combined constraints keep their set meaning on the wire."""
from pyasn1.type.namedtype import NamedType
from asn1PERser import encode, decode
from asn1PERser.classes.data.builtin import IntegerType, BitStringType, OctetStringType, SequenceOfType, SequenceType, BooleanType
from asn1PERser.classes.types.type import AdditiveNamedTypes
from asn1PERser.classes.types.constraint import MIN, MAX, ValueRange, ValueSize, SequenceOfValueSize, SingleValue, ConstraintOr, ConstraintAnd
from vlib import gen, ref, runner, work

ID = 'C15'
RULE = ('seeded trees of ValueRange / SingleValue / ValueSize / SequenceOfValueSize leaves under ConstraintOr and ConstraintAnd, with MIN, MAX, endpoints '
        'given as numbers and as INTEGER values, and an outer extension marker; the set and its effective range are computed by interval arithmetic; values at and next to every '
        'bound are constructed, encoded and decoded behind 0..7 bits and compared with X.691 for that range; encodings of values '
        'inside the range but outside the set must be refused by decode; a case is one type with its probe values')
PLAN = {'quick': {'int': 9000, 'nested': 5000, 'size': 2500}, 'thorough': {'int': 120000, 'nested': 80000, 'size': 30000}}
NEED = {'values accepted': 20000, 'values refused': 20000, 'wrong encodings refused': 1500}
ASSUMPTIONS = ['operands of ConstraintAnd / ConstraintOr carry no extension marker of their own (the marker of the whole constraint decides)',
               'a constraint whose set is empty defines no values: everything is refused']
context = work.context
INF = float('inf')


def points(r, g):
    base = r.choice((0, 0, 1, -1, 5, -10, 100, 250, 65530, -65536, 1 << 31, g.signed()))
    return sorted(base + r.choice((0, 1, 2, 3, 5, 8, 13, 100, 254, 255, 256, 257, 65535, 65536, 70000, g.magnitude())) for _ in range(7))


def leaf(r, ps, single=True):
    a = r.choice(ps)
    b = r.choice([p for p in ps if p >= a])
    c = r.random()
    if c < 0.25 and single:
        return ['single', sorted(set(r.choice(ps) for _ in range(r.choice((1, 1, 2, 3)))), key=lambda x: r.random())]
    if c < 0.33:
        return ['range', None, b]
    if c < 0.41:
        return ['range', a, None]
    if c < 0.44:
        return ['range', None, None]
    return ['range', a, b]


def tree(r, ps, d, single=True):
    if d == 0 or r.random() < 0.15:
        return leaf(r, ps, single)
    return [r.choice(('or', 'and')), [tree(r, ps, d - 1, single) for _ in range(r.choice((1, 2, 2, 2, 3)))]]


def generate(kind, r, ctx):
    g = gen.G(r, ctx.get('extra', ()), depth=1)
    if kind == 'size':
        ps = sorted(r.choice((0, 1, 2, 3, 4, 8, 15, 16, 17, 18, 40, 127, 128, 255, 256, 257)) for _ in range(5))
        c = tree(r, ps, r.choice((1, 1, 2)), False)
        for _ in range(9):
            if inter(sets(c), [(0, INF)]):
                break
            c = tree(r, ps, 1, False)
        k = r.choice(('bits', 'octs', 'seqof'))
        vs = sorted({p + d for p in ps for d in (-1, 0, 1) if p + d >= 0} | {0, r.randrange(60)})
        vs = [v for v in vs if v < 300]
    else:
        ps = points(r, g)
        c = tree(r, ps, 1 if kind == 'int' else r.choice((2, 2, 3)))
        for _ in range(9):
            if sets(c) or r.random() < 0.02:
                break
            c = tree(r, ps, 1 if kind == 'int' else 2)
        k = 'int'
        s = sets(c)
        vs = {p + d for p in ps for d in (-1, 0, 1)}
        vs |= {r.randrange(ps[0] - 3, ps[-1] + 4), ps[0] - 1000, ps[-1] + 100000}
        for a, b in s:
            if a > -INF and b < INF:
                vs.add(r.randrange(a, b + 1))
        vs = sorted(vs)
        r.shuffle(vs)
        vs = vs[:14]
    return {'k': k, 'c': c, 'ext': r.random() < 0.35, 'vs': vs, 'off': r.randrange(8), 'wrap': r.random() < 0.5,
            'named': r.choice((0, 0, r.getrandbits(16)))}


# ------------------------------------------------------------------- model
def merge(xs):
    out = []
    for a, b in sorted(xs):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def inter(x, y):
    return merge((max(a, c), min(b, d)) for a, b in x for c, d in y if max(a, c) <= min(b, d))


def sets(c):
    if c[0] == 'single':
        return merge((v, v) for v in c[1])
    if c[0] == 'range':
        return [(-INF if c[1] is None else c[1], INF if c[2] is None else c[2])]
    if c[0] == 'or':
        return merge(i for x in c[1] for i in sets(x))
    out = [(-INF, INF)]
    for x in c[1]:
        out = inter(out, sets(x))
    return out


def make(c, leafcls, ext=False, named=0):
    """named: endpoints are INTEGER values, as those that stand for value references are, where the bits say so."""
    def end(v):
        return IntegerType(v) if (named >> (v % 13)) & 1 else v
    if c[0] == 'single':
        return SingleValue(ext, *[end(v) for v in c[1]])
    if c[0] == 'range':
        lo, hi = MIN if c[1] is None else end(c[1]), MAX if c[2] is None else end(c[2])
        return leafcls(lo, hi, extensionMarker=True) if ext else leafcls(lo, hi)
    return (ConstraintOr if c[0] == 'or' else ConstraintAnd)(ext, *[make(x, leafcls, False, named) for x in c[1]])


def run(case, obs):
    k, c, ext = case['k'], case['c'], case['ext']
    s = sets(c)
    if k != 'int':
        s = inter(s, [(0, INF)])
    if not s and (ext or k != 'int'):
        return None
    named = case.get('named', 0)
    base, leafcls = {'seqof': (SequenceOfType, SequenceOfValueSize), 'int': (IntegerType, ValueRange), 'bits': (BitStringType, ValueSize), 'octs': (OctetStringType, ValueSize)}[k]
    try:
        spec = make(c, leafcls, ext, named)
    except Exception as e:
        return 'constraint %s cannot be made: %s: %s' % (c, type(e).__name__, e)
    X = type('X', (base,), dict({'subtypeSpec': spec}, **{'componentType': BooleanType()} if k == 'seqof' else {}))
    lb, ub = (s[0][0], s[-1][1]) if s else (0, 0)
    t = {'k': k, 'lb': None if lb == -INF else lb, 'ub': None if ub == INF else ub, 'ext': ext}
    if k == 'seqof':
        t['elem'] = {'k': 'bool'}
    if k != 'int' and t['lb'] == 0 and t['ub'] is None and not ext:
        t['lb'] = None
    if k != 'int' and t['lb'] is None and ext:
        t['lb'] = 0
    n = case['off']
    full = {'k': 'seq', 'root': [{'n': 'p%d' % i, 't': {'k': 'bool'}, 'o': 'm'} for i in range(n)] +
            [{'n': 'x', 't': t, 'o': 'm'}, {'n': 'z', 't': {'k': 'int', 'lb': 0, 'ub': 5, 'ext': False}, 'o': 'm'}],
            'ext': False, 'adds': [], 'groups': []}
    Z = type('Z', (IntegerType,), {'subtypeSpec': ValueRange(0, 5)})
    comp = AdditiveNamedTypes(*([NamedType('p%d' % i, BooleanType()) for i in range(n)] + [NamedType('x', X()), NamedType('z', Z())]))
    S = type('S', (SequenceType,), {'rootComponent': comp, 'componentType': comp})
    for v in case['vs']:
        member = any(a <= v <= b for a, b in s)
        inside = bool(s) and lb <= v <= ub
        pv = v if k == 'int' else [bool((v + i) % 3) for i in range(v)] if k == 'seqof' else format((v * 2654435761) % (1 << v), '0%db' % v) if k == 'bits' and v else '' if k == 'bits' else \
            bytes((i * 7 + v) % 256 for i in range(v))
        if case['wrap']:
            tt, vv = full, dict({'p%d' % i: bool((v >> i) & 1) for i in range(n)}, x=pv, z=v % 6)
        else:
            tt, vv = t, pv

        def build():
            x = X(pv) if k == 'int' else X().clear() if k == 'seqof' else X(binValue=pv) if k == 'bits' and pv else X('') if k == 'bits' else X(pv)
            if k == 'seqof':
                x.extend([BooleanType(b) for b in pv])
            if not case['wrap']:
                return x
            o = S()
            for f in vv:
                o[f] = x if f == 'x' else vv[f]
            return o
        if member or ext:
            want = work.expected(tt, vv)
            try:
                got = bytes(encode(asn1Spec=build()))
            except Exception as e:
                return 'refused: %s of %s raises %s: %s' % (v, show(case), type(e).__name__, str(e)[:200])
            if want is None:
                continue
            if got != want:
                return 'range: %s of %s encodes to %s, X.691 with the effective range %s..%s gives %s' % (
                    v, show(case), got.hex(), lb, ub, want.hex())
            d = decode(per_stream=want, asn1Spec=S() if case['wrap'] else X())
            d = d['x'] if case['wrap'] else d
            back = int(d) if k == 'int' else [bool(b) for b in d] if k == 'seqof' else ''.join(str(b) for b in d) if k == 'bits' else bytes(d)
            if back != pv:
                return 'decode: %s of %s decodes as %s' % (v, show(case), back)
            obs.event('values accepted')
            obs.state('accepted', bool(named), k, ext, member, inside, lb == -INF, ub == INF, c[0], case['wrap'], n)
        else:
            try:
                got = encode(asn1Spec=build())
            except Exception as e:
                if not runner.from_library(e):
                    raise
                obs.event('values refused')
                obs.state('refused', k, inside, lb == -INF, ub == INF, c[0], n)
            else:
                return 'accepted: %s is not in %s, encodes to %s' % (v, show(case), bytes(got).hex())
            if inside:
                data = work.expected(tt, vv)
                if data is None:
                    continue
                try:
                    d = decode(per_stream=data, asn1Spec=S() if case['wrap'] else X())
                except Exception as e:
                    if not runner.from_library(e):
                        raise
                    obs.event('wrong encodings refused')
                else:
                    return 'accepted: %s (value %s, not in %s) is decoded' % (data.hex(), v, show(case))


def show(case):
    return '%s %s%s' % (case['k'], case['c'], ' ...' if case['ext'] else '')


def shrink(case):
    if len(case['vs']) > 1:
        for v in case['vs']:
            yield dict(case, vs=[v])
    if case['wrap']:
        yield dict(case, wrap=False)
    if case.get('named'):
        yield dict(case, named=0)
    if case['off']:
        yield dict(case, off=0)
    for c in smaller(case['c']):
        yield dict(case, c=c)


def smaller(c):
    if c[0] in ('or', 'and'):
        yield from c[1]
        if len(c[1]) > 1:
            for i in range(len(c[1])):
                yield [c[0], c[1][:i] + c[1][i + 1:]]
        for i, x in enumerate(c[1]):
            for y in smaller(x):
                yield [c[0], c[1][:i] + [y] + c[1][i + 1:]]
    elif c[0] == 'single' and len(c[1]) > 1:
        for i in range(len(c[1])):
            yield ['single', c[1][:i] + c[1][i + 1:]]
