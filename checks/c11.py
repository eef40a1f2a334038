"""C11 Generated Python code means what the schema says."""
import random
from asn1PERser import encode, decode, parse_asn1_schema
from vlib import build, gen, gentext, ir, observe, paths, ref, runner, text, work
from checks import c05, c06

ID = 'C11'
RULE = ('seeded modules: types of every supported kind, named, aliased or inline, in any order, value definitions used in constraints and '
        'DEFAULT, markers, additions and groups, all spellings of ranges and sizes; the generated code is executed, every type and value '
        'definition looked up by its Python name, and messages of every type (values at and outside each constraint, with components left '
        'out) are encoded and decoded and compared with X.691 for the type the schema text stands for; a case is one module')
PLAN = {'quick': {'small': 1500, 'wide': 700, 'nested': 700, 'consts': 1000}, 'thorough': {'small': 12000, 'wide': 6000, 'nested': 6000, 'consts': 8000}}
CHUNK = 12
NEED = {'types compared': 2000, 'messages compared': 8000, 'values refused': 1500, 'constants compared': 500}
ASSUMPTIONS = ['pyparsing memoisation (packrat) is switched on, as the grammar is exponential without it; C12 compares with it off']
context = work.context


def generate(kind, r, ctx):
    kw = {'small': dict(depth=1), 'wide': dict(depth=2, inline=0.1), 'nested': dict(depth=3, inline=0.9), 'consts': dict(depth=r.choice((1, 2)), consts=0.9)}[kind]
    m, tops = gentext.make(r, ctx.get('extra', ()), **kw)
    return {'m': m, 'seed': r.getrandbits(32)}


def load(code):
    ns = {'__name__': 'generated'}
    exec(compile(code, '<generated>', 'exec'), ns)
    return ns


class Wrong(Exception):
    pass


def node(t, cls, where):
    """The classes of a generated type, found the way a user finds them: by name, from the type."""
    k = t['k']
    base = {'bool': build.BooleanType, 'int': build.IntegerType, 'enum': build.EnumeratedType, 'bits': build.BitStringType,
            'octs': build.OctetStringType, 'seqof': build.SequenceOfType, 'seq': build.SequenceType, 'choice': build.ChoiceType}[k]
    if not (isinstance(cls, type) and issubclass(cls, base)) or k == 'int' and issubclass(cls, build.EnumeratedType):
        raise Wrong('kind: %s is %s, expected a %s' % (where, getattr(cls, '__name__', cls), base.__name__))
    sub = {}
    if k == 'seqof':
        sub['elem'] = node(t['elem'], type(cls.componentType), where + '[]')
    elif k in ('seq', 'choice'):
        names = [str(nt.name) for nt in cls.componentType.namedTypes]
        if names != [f['n'] for f in ir.alts(t)]:
            raise Wrong('components: %s has %s, expected %s' % (where, names, [f['n'] for f in ir.alts(t)]))
        for f, nt in zip(ir.alts(t), cls.componentType.namedTypes):
            sub[f['n']] = node(f['t'], type(nt.asn1Object), where + '.' + f['n'])
    return build.Node(t, cls, sub)


def run(case, obs):
    m = case['m']
    src = text.plain(m)
    try:
        code = parse_asn1_schema(src)
    except RecursionError:
        obs.event('too deep for the parser')
        return None
    except Exception as e:
        return 'parse: %s: %s\n%s' % (type(e).__name__, str(e)[:300], src)
    try:
        ns = load(code)
    except Exception as e:
        return 'import: %s: %s\n%s\n%s' % (type(e).__name__, str(e)[:300], src, code[400:3000])
    what = judge(m, ns, random.Random(case['seed']), obs)
    return what and '%s\n%s' % (what, src)


def judge(m, ns, r, obs):
    ds = text.defs_of(m)
    for d in m['defs']:
        t = text.resolve(m, d[2])
        py = text.python_name(d[1])
        if py not in ns:
            return 'missing: %s is not defined' % py
        if d[0] == 'value':
            v = text.constant(m, d[3], ds)
            o = ns[py]
            try:
                n = node(t, type(o), d[1])
            except Wrong as e:
                return str(e)
            if n.read(o) != v:
                return 'value: %s is %r, expected %r' % (d[1], n.read(o), v)
            obs.event('constants compared')
            obs.state('constants', t['k'], 'ref' in d[2])
            continue
        try:
            n = node(t, ns[py], d[1])
            what = judge_type(n, t, r, obs, d[1])
        except Wrong as e:
            return str(e)
        if what:
            return '%s: %s' % (what.split(':')[0], d[1] + what[len(what.split(':')[0]):])
        obs.event('types compared')
        obs.state('types', shape(d[2]))


def shape(wt):
    if 'ref' in wt:
        return 'ref'
    k = wt['k']
    if k in ('int', 'bits', 'octs', 'seqof'):
        return (k, type(wt['lb']).__name__, type(wt['ub']).__name__, wt['lb'] == wt['ub'], wt['ext'], shape(wt['elem']) if k == 'seqof' else 0)
    if k == 'enum':
        return (k, len(wt['root']), len(wt['adds']), wt['ext'])
    if k == 'bool':
        return k
    return (k, wt['ext'], wt.get('tail', 0) > 0, len(wt['groups'])) + tuple(
        (f.get('o'), isinstance(f.get('d'), dict), shape(f['t'])) for f in ir.alts(wt))


def judge_type(n, t, r, obs, where):
    g = gen.G(r, (), depth=1, max_len=12)
    vals = [g.value(t) for _ in range(6)]
    if t['k'] == 'enum':
        vals += t['root'] + t['adds']
    if t['k'] == 'choice':
        vals += [(a['n'], g.value(a['t'])) for a in ir.alts(t)]
    for v in vals:
        if ir.complete_message(t, v) is not True:
            continue
        want = work.expected(t, v)
        if want is None:
            continue
        try:
            o = n.make(v, r.randrange(3))
            got = bytes(encode(asn1Spec=o))
        except Exception as e:
            if not runner.from_library(e):
                raise
            return 'refused: value %r of %r raises %s: %s' % (v, t, type(e).__name__, str(e)[:200])
        if got != want:
            return 'encode: %r of %r gives %s, X.691 says %s' % (v, t, got.hex(), want.hex())
        d = decode(per_stream=want, asn1Spec=n.cls())
        back = observe.value2(n, d)
        if back != ir.complete(t, v):
            return 'decode: %s of %r reads %r, expected %r' % (want.hex(), t, back, ir.complete(t, v))
        obs.event('messages compared')
    # one place outside its constraint
    for v in vals[:4]:
        ps = [p for p in paths.places(t, v) if c05.constrained(p[1])]
        for path, pt, old in r.sample(ps, min(3, len(ps))):
            x = c05.outside(g, r, pt)
            if x is None or (pt['k'] == 'enum' and not isinstance(x, str)):
                continue
            if pt['k'] != 'enum' and pt['ext']:
                bad = paths.replaced(v, path, x)
                want = work.expected(t, bad)
                if want is None or ir.complete_message(t, bad) is not True:
                    continue
                got = bytes(encode(asn1Spec=n.make(bad)))
                if got != want:
                    return 'encode: %r (outside the root) of %r gives %s, X.691 says %s' % (bad, t, got.hex(), want.hex())
                obs.event('messages compared')
                continue
            bad = paths.replaced(v, path, x)
            try:
                got = bytes(encode(asn1Spec=n.make(bad)))
            except Exception as e:
                if not runner.from_library(e):
                    raise
                obs.event('values refused')
            else:
                return 'accepted: %r at %s of %r encodes to %s' % (x, path, t, got.hex())
    # one mandatory component left out
    if t['k'] == 'seq':
        for f in t['root']:
            if f['o'] == 'm':
                v = {k: x for k, x in vals[0].items() if k != f['n']}
                if ir.complete_message(t, v) is not False:
                    continue
                try:
                    got = bytes(encode(asn1Spec=n.make(v)))
                except Exception as e:
                    if not runner.from_library(e):
                        raise
                    obs.event('values refused')
                else:
                    return 'accepted: message without %s encodes to %s' % (f['n'], got.hex())
    # anything left out
    for v in vals[:4]:
        x = ir.set_only(t, c06.thin(r, t, v, r.choice((0.1, 0.3, 0.6)), 0.05))
        ok = ir.complete_message(t, x)
        want = work.expected(t, x) if ok and c06.has_size(t, x) else None
        if ok is None or ok and want is None:
            continue
        try:
            got = bytes(encode(asn1Spec=c06.make(n, x, 0)))
        except Exception as e:
            if not runner.from_library(e):
                raise
            if ok:
                return 'refused: %r of %r raises %s: %s' % (x, t, type(e).__name__, str(e)[:200])
            obs.event('values refused')
        else:
            if not ok:
                return 'accepted: incomplete %r of %r encodes to %s' % (x, t, got.hex())
            if got != want:
                return 'encode: %r of %r gives %s, X.691 says %s' % (x, t, got.hex(), want.hex())
            obs.event('messages compared')
    return None


# ------------------------------------------------------------------ shrinking
def shrink(case):
    return (c for c in smaller_modules(case) if sane(c['m']))


def sane(m):
    """Does every value belong to its type?"""
    ds = text.defs_of(m)
    for d in m['defs']:
        t = text.resolve(m, d[2])
        if d[0] == 'value' and not ir.valid(t, text.constant(m, d[3], ds)):
            return False
        if any(f.get('o') == 'd' and not ir.valid(f['t'], f['d']) for x in ir.walk(t) if x['k'] == 'seq' for f in ir.alts(x)):
            return False
    return True


def smaller_modules(case):
    m = case['m']
    ds = m['defs']
    used = set()
    for d in ds:
        used |= refs(d[2])
        if d[0] == 'value' and isinstance(d[3], dict):
            used.add(d[3].get('c'))
    for i, d in enumerate(ds):
        if d[1] not in used:
            yield dict(case, m=dict(m, defs=ds[:i] + ds[i + 1:]))
    for i, d in enumerate(ds):
        if 'how' in d[2] and d[2]['how']:
            yield put(case, i, dict(d[2], how=0))
        for w in smaller(d[2]):
            yield put(case, i, w)
    if any('ref' in d[2] for d in ds):
        for i, d in enumerate(ds):
            if 'ref' in d[2] and d[0] == 'type':
                yield put(case, i, text.defs_of(m)[d[2]['ref']][2])


def put(case, i, wt):
    m = case['m']
    ds = m['defs']
    return dict(case, m=dict(m, defs=ds[:i] + [ds[i][:2] + [wt] + ds[i][3:]] + ds[i + 1:]))


def refs(wt):
    out = set()
    if 'ref' in wt:
        return {wt['ref']}
    for e in ('lb', 'ub'):
        if isinstance(wt.get(e), dict):
            out.add(wt[e]['c'])
    if 'elem' in wt:
        out |= refs(wt['elem'])
    if wt['k'] in ('seq', 'choice'):
        for f in ir.alts(wt):
            out |= refs(f['t'])
            if isinstance(f.get('d'), dict):
                out.add(f['d'].get('c'))
    return out


def smaller(wt):
    if 'ref' in wt:
        return
    if wt['k'] in ('seq', 'choice'):
        for p in ('root', 'adds'):
            for i in range(len(wt[p])):
                if not (p == 'root' and len(wt[p]) == 1):
                    yield dict(wt, tail=0, **{p: wt[p][:i] + wt[p][i + 1:]})
        for i in range(len(wt['groups'])):
            yield dict(wt, groups=wt['groups'][:i] + wt['groups'][i + 1:])
            if len(wt['groups'][i]) > 1:
                for j in range(len(wt['groups'][i])):
                    yield dict(wt, groups=wt['groups'][:i] + [wt['groups'][i][:j] + wt['groups'][i][j + 1:]] + wt['groups'][i + 1:])
        if wt.get('tail'):
            yield dict(wt, tail=0)
        for p in ('root', 'adds'):
            for i, f in enumerate(wt[p]):
                for w in smaller(f['t']):
                    yield dict(wt, **{p: wt[p][:i] + [dict(f, t=w)] + wt[p][i + 1:]})
                if f['t'] != {'k': 'bool'} and f.get('o') != 'd':
                    yield dict(wt, **{p: wt[p][:i] + [dict(f, t={'k': 'bool'})] + wt[p][i + 1:]})
    elif wt['k'] == 'seqof':
        for w in smaller(wt['elem']):
            yield dict(wt, elem=w)
        if wt['elem'] != {'k': 'bool'}:
            yield dict(wt, elem={'k': 'bool'})
    elif wt['k'] == 'enum' and (len(wt['root']) > 2 or len(wt['adds']) > 1):
        yield dict(wt, root=wt['root'][:2], adds=wt['adds'][:1])


# ------------------------------------------------------------------ notation known to be mistranslated (see KNOWN_FINDINGS.txt)
def _type(body):
    return load(parse_asn1_schema('M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND\n' % body))['A']


def _refuses(cls, *values):
    for v in values:
        try:
            encode(asn1Spec=cls(v))
        except Exception:
            continue
        return 'accepts %r' % (v,)


def probe_exclusive():
    a = _type('A ::= INTEGER (0<..<6)')
    got = bytes(encode(asn1Spec=a(1))).hex()
    return _refuses(a, 0, 6) or (None if got == '00' else '1 encodes to ' + got)


def probe_union():
    return _refuses(_type('A ::= INTEGER (1 | 5 | 9)'), 2)


def probe_intersection():
    return _refuses(_type('A ::= INTEGER (0..9 ^ 2..5)'), 0)


def probe_except():
    bytes(encode(asn1Spec=_type('A ::= INTEGER (0..10 EXCEPT 5)')(7)))


def probe_order():
    a = _type('A ::= SEQUENCE { a BOOLEAN, ..., [[ b BOOLEAN ]], c BOOLEAN }')()
    a['a'] = build.BooleanType(True)
    a['b'] = build.BooleanType(True)
    got = bytes(encode(asn1Spec=a)).hex()
    return None if got == 'c0c00180' else 'encodes to ' + got


def probe_named_bits():
    got = bytes(encode(asn1Spec=_type('A ::= BIT STRING { x(0), y(1) }')('1000'))).hex()
    return None if got == '0180' else 'encodes to ' + got


def probe_type_name():
    got = bytes(encode(asn1Spec=_type('IntegerType ::= INTEGER (0..5)\nA ::= INTEGER')(9))).hex()
    return None if got == '0109' else 'encodes to ' + got


PROBES = {'exclusive-endpoint': probe_exclusive, 'union-gap': probe_union, 'intersection': probe_intersection, 'except': probe_except,
          'addition-after-group': probe_order, 'named-bits': probe_named_bits, 'type-name': probe_type_name}
