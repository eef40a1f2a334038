"""C05 No value outside its constraints is ever put on the wire."""
from asn1PERser import encode, decode
from vlib import build, gen, ir, paths, runner, work

ID = 'C05'
RULE = ('seeded types and values; one number, size or item anywhere in the message is replaced by one outside its '
        'constraint (just outside, at zero, far off) or at its boundary; the message is built directly in five '
        'spellings (plain values, objects, objects of another class, results of arithmetic and slicing), or built valid, decoded and then changed in place; a value outside must raise before bytes exist, '
        'one inside (or outside an extensible root) must be accepted and survive a round trip')
PLAN = {'quick': {'flat': 12000, 'deep': 6000, 'sweep': 14000},
        'thorough': {'flat': 130000, 'deep': 80000, 'sweep': 160000}}
NEED = {'refused': 6000, 'accepted': 4000, 'accepted outside extensible root': 700}
ASSUMPTIONS = ['any exception counts as refusal']
context = work.context
KINDS = ('int', 'enum', 'bits', 'octs', 'seqof')


def constrained(t):
    return t['k'] == 'enum' or t['k'] in KINDS and not (t['lb'] in (None, 0) and t['ub'] is None and t['k'] != 'int') \
        and not (t['k'] == 'int' and t['lb'] is None and t['ub'] is None)


def outside(g, r, t):
    """A value outside the root of t, or None."""
    if t['k'] == 'enum':
        n = len(t['root']) + len(t['adds'])
        return r.choice((n, n, n + 1, -1, n + 254, -n, 'unknown-item', 1 << 20, ''))
    lb, ub = t['lb'], t['ub']
    if t['k'] == 'int':
        c = []
        if lb is not None:
            c += [lb - 1, lb - 1, lb - 2, lb - 1 - g.magnitude(), 0, -lb, -1]
        if ub is not None:
            c += [ub + 1, ub + 1, ub + 2, ub + 1 + g.magnitude(), 2 * ub + 1, 0]
        if lb is not None and ub is not None:
            c += [ub + (ub - lb) + 1, lb - (ub - lb) - 1]
        c = [x for x in c if not ir.in_root(t, x)]
        return r.choice(c) if c else None
    c = []
    if lb:
        c += [lb - 1, lb - 1, 0, lb // 2]
    if ub is not None and ub < 3000:
        c += [ub + 1, ub + 1, ub + 2, ub + 8, 2 * ub + 1]
    c = [x for x in c if not ir.in_root(t, x) and x < 3000 and not (t['k'] == 'seqof' and x > 300)]
    return sized(g, t, r.choice(c)) if c else None


def inside(g, r, t):
    if t['k'] == 'enum':
        return g.value(t)
    lb, ub = t['lb'], t['ub']
    if t['k'] == 'int':
        c = [x for x in (lb, ub, None if lb is None else lb + 1, None if ub is None else ub - 1, 0, g.int_value(t)) if x is not None and ir.in_root(t, x)]
        return r.choice(c)
    c = [x for x in (lb, ub, None if lb is None else lb + 1, None if ub is None else ub - 1) if x is not None and ir.in_root(t, x) and 0 <= x <= 2000 and not (t['k'] == 'seqof' and x > 300)]
    return sized(g, t, r.choice(c)) if c else g.value(t)


def sized(g, t, n):
    if t['k'] == 'bits':
        return g.bits(n)
    if t['k'] == 'octs':
        return g.octets(n)
    return [g.value(t['elem']) for _ in range(n)]


def generate(kind, r, ctx):
    for _ in range(20):
        c = work.make(kind, r, ctx)
        g = gen.G(r, ctx.get('extra', ()), depth=1, max_len=12)
        ps = [p for p in paths.places(c['t'], c['v']) if constrained(p[1])]
        if not ps:
            continue
        path, t, old = r.choice(ps[:200])
        if r.random() < 0.7:
            x, out = outside(g, r, t), True
            if x is None:
                continue
        else:
            x, out = inside(g, r, t), False
        c.update(path=list(path), x=x, out=out, modify=bool(path) and r.random() < 0.3, old=old,
                 how=r.randrange(5) if t['k'] in BASE else r.randrange(3))
        return c
    return None


BASE = {'int': build.IntegerType, 'octs': build.OctetStringType, 'bits': lambda x: build.BitStringType(binValue=x)}


BASES = {'int': build.IntegerType, 'octs': build.OctetStringType, 'bits': build.BitStringType}


def other(c, x):
    """The value as an object of another class, whose constraint allows it."""
    k = c.t['k']
    lo, hi = (x - 3, x + 3) if k == 'int' else (0, len(x) + 3)
    cls = type('Other', (BASES[k],), {'subtypeSpec': (build.ValueRange if k == 'int' else build.ValueSize)(lo, hi)})
    return cls(binValue=x) if k == 'bits' and x else cls(x)


def derived(c, x, old, out):
    """The value as the result of an operation on an object that is inside the constraint."""
    o, k = c.make(old), c.t['k']
    if not out:
        return o.clone(build.BitStringType(binValue=x) if x else '') if k == 'bits' else o.clone(x)
    if k == 'int':
        return o + (x - old) if (x ^ old) & 1 else o - (old - x)
    if len(x) < len(old):
        return o[:len(x)]
    more = x[len(old):]
    return o + (build.BitStringType(binValue=more) if k == 'bits' else more)


def leaf(c, x, old, how, out):
    if how == 3:
        y = other(c, x)
        return c.cls(y)
    if how == 4:
        return derived(c, x, old, out)
    return c.make(x, how)


def put(n, o, path, x, how, out, old=None):
    c = paths.node_at(n, path)
    if how > 2:
        paths.put(o, path, leaf(c, x, old, how, out))
    elif how == 1 and c.t['k'] in ('int', 'enum', 'octs'):
        paths.put(o, path, x)
    elif how == 2 and out and c.t['k'] in BASE:    # an object of the type without the constraint
        paths.put(o, path, BASE[c.t['k']](x))
    else:
        paths.put(o, path, c.make(x, how))


def run(case, obs):
    t, path, x = case['t'], tuple(case['path']), case['x']
    site = paths.type_at(t, path)
    good = paths.replaced(case['v'], path, x)
    may = not case['out'] or (site['k'] != 'enum' and site['ext'])
    if work.expected(t, case['v']) is None or (may and work.expected(t, good) is None):
        obs.event('unsupported (see C14)')
        return
    n = build.build(t)
    try:
        if case['modify']:
            o = decode(per_stream=encode(asn1Spec=n.make(case['v'], case['how'])), asn1Spec=n.cls())
        else:
            encode(asn1Spec=n.make(case['v'], case['how']))
    except Exception as e:
        return 'valid value refused: %s: %s' % (type(e).__name__, str(e)[:200])
    try:
        if case['modify']:
            put(n, o, path, x, case['how'], not may, case.get('old'))
        elif case['how'] > 2 and path:
            o = n.make(case['v'])
            put(n, o, path, x, case['how'], not may, case['old'])
        elif case['how'] > 2:
            o = leaf(n, x, case['old'], case['how'], not may)
        else:
            o = n.make(good, case['how'])
        data = bytes(encode(asn1Spec=o))
    except Exception as e:
        if not runner.from_library(e):
            raise
        if may:
            return 'accepted value refused: %r at %s in %r raises %s: %s' % (x, list(path), site_of(site), type(e).__name__, str(e)[:200])
        obs.event('refused')
        obs.event('refused ' + site['k'])
        obs.state('refusals', site['k'], str(site.get('lb'))[:6], str(site.get('ub'))[:6], type(e).__name__, case['modify'])
        return
    if not may:
        return 'constraint: %r at %s, outside %r, was encoded as %s' % (x, list(path), site_of(site), data.hex()[:200])
    got = n.read(decode(per_stream=data, asn1Spec=n.cls()))
    if got != ir.complete(t, good):
        return 'round trip: %r at %s in %r: sent %r, got %r' % (x, list(path), site_of(site), ir.complete(t, good), got)
    obs.event('accepted')
    if case['out']:
        obs.event('accepted outside extensible root')


def site_of(s):
    return {k: v for k, v in s.items() if k != 'elem'}


def shrink(case):
    p = case['path']
    if p:
        t = case['t']
        sub = t['elem'] if t['k'] == 'seqof' else [a for a in ir.alts(t) if a['n'] == p[0]][0]['t']
        v = case['v'][1] if t['k'] == 'choice' else case['v'][p[0]]
        if not (case['modify'] and len(p) == 1):
            yield dict(case, t=sub, v=v, path=p[1:])
    if case['modify']:
        yield dict(case, modify=False)
    if case['how']:
        yield dict(case, how=0)
