"""C14 What is not supported fails loudly."""
from asn1PERser import encode, decode
from vlib import build, gen, ir, observe, ref, runner, work

ID = 'C14'
RULE = ('seeded lengths on both sides of each limit (16K units per length without bounds, 64K of fixed size, 64 extension additions) for '
        'every kind of length determinant (strings, lists, numbers, open types, bitmap), bare and nested; beyond the limit encode must '
        'raise, and decode must raise on the fragmented encoding X.691 prescribes; up to the limit bytes and value must be right; '
        'a case is one (type, value)')
PLAN = {'quick': {'beyond': 700, 'below': 500, 'forms': 1500}, 'thorough': {'beyond': 7000, 'below': 5000, 'forms': 30000}}
CHUNK = 12
NEED = {'encode raised': 500, 'decode raised': 500, 'worked below the limit': 300, 'fragment headers refused': 800}
ASSUMPTIONS = ['fragmented encodings come from the reference codec (X.691 11.9.3.8), as no second implementation is at hand']
context = work.context

KINDS = ['octs', 'bits', 'seqof', 'int', 'open', 'alt', 'group', 'adds', 'groups', 'fixed', 'extsize', 'big']
BEYOND = [16384, 16385, 16400, 20000, 32767, 32768, 32769, 49152, 65535, 65536, 65537, 65600, 81920, 131072, 131073]
BELOW = [16383, 16382, 16300, 16000, 8192, 16383]
EIGHT = {'k': 'octs', 'lb': None, 'ub': None, 'ext': False}


def seq(root, ext=False, adds=(), groups=()):
    return {'k': 'seq', 'root': root, 'ext': ext, 'adds': list(adds), 'groups': [list(x) for x in groups]}


def f(n, t, o='m'):
    return {'n': n, 't': t, 'o': o}


def sized(r, k, n, beyond):
    """A size constraint under which a string of n units has a length without bounds."""
    c = r.randrange(6)
    lb, ub, ext = [(None, None, False), (r.choice((0, 1, 5, n)), None, False), (r.choice((0, 2, n)), r.choice((65536, 65537, 1 << 20, 1 << 33)), False),
                   (r.choice((0, 3)), r.choice((3, 100)), True), (0, r.choice((65536, 1 << 20)), True), (None, None, False)][c]
    return {'k': k, 'lb': lb, 'ub': ub, 'ext': ext}


def inner(r, g, n, beyond):
    k = r.choice(KINDS)
    if k == 'int' and r.random() < 0.8:     # seconds each
        k = 'octs'
    if k in ('octs', 'bits', 'seqof'):
        t = sized(r, k, n, beyond)
    elif k == 'fixed':
        k = r.choice(('octs', 'bits', 'seqof'))
        n = r.choice((65536, 65537, 70000, 131072)) if beyond else r.choice((65535, 65534, 16384, 16385, 40000))
        t = {'k': k, 'lb': n, 'ub': n, 'ext': r.random() < 0.3}
    elif k == 'extsize':
        k = r.choice(('octs', 'bits', 'seqof'))
        t = {'k': k, 'lb': r.choice((0, 1)), 'ub': r.choice((1, 2, 10000)), 'ext': True}
    elif k == 'big':        # constrained lengths have no such limit
        k = r.choice(('octs', 'bits', 'seqof'))
        if beyond:
            t = sized(r, k, n, beyond)
        else:
            n = r.choice((16384, 16385, 40000, 65535, 65534))
            t = {'k': k, 'lb': r.choice((0, 1, 5, n - 1)), 'ub': r.choice((n, 65535)), 'ext': r.random() < 0.3}
    elif k == 'int':
        n = min(n, 16390)
        t = {'k': 'int', 'lb': r.choice((None, None, 0, 7)), 'ub': None, 'ext': False}
        if r.random() < 0.3:
            t = {'k': 'int', 'lb': 0, 'ub': 9, 'ext': True}
        signed = t['lb'] is None or t['ext']
        v = r.choice(((1 << (8 * n - (1 if signed else 0))) - 1, 1 << (8 * n - (2 if signed else 1))))
        return t, v + (7 if t['lb'] == 7 and v < 1 << (8 * n - 1) else 0)
    elif k in ('open', 'alt', 'group'):
        # content whose own length is fine, but not the open type around it
        elem = {'k': 'octs', 'lb': 1000, 'ub': 1000, 'ext': False}
        if beyond:
            many, rest = n // 1000, n % 1000
        else:
            many, rest = 16, 16383 - 16000 - r.choice((0, 1, 2, 5))
        lst = {'k': 'seqof', 'elem': elem, 'lb': 0, 'ub': 255, 'ext': False}
        tail = {'k': 'octs', 'lb': rest, 'ub': rest, 'ext': False} if rest > 2 else {'k': 'octs', 'lb': 3, 'ub': 3, 'ext': False}
        body = seq([f('n', lst), f('t', tail)])
        bv = {'n': [g.octets(1000) for _ in range(many)], 't': g.octets(tail['lb'])}
        if k == 'open':
            return seq([f('a', {'k': 'bool'})], True, [f('b', body, 'o')]), {'a': True, 'b': bv}
        if k == 'group':
            return seq([f('a', {'k': 'bool'})], True, [], [[f('b', body, 'o'), f('c', {'k': 'bool'}, 'm')]]), {'a': True, 'b': bv, 'c': False}
        return ({'k': 'choice', 'root': [{'n': 'a', 't': {'k': 'bool'}}], 'ext': True, 'adds': [{'n': 'b', 't': body}], 'groups': []}, ('b', bv))
    else:       # number of extension additions
        n = r.choice((65, 66, 67, 80, 100, 127, 128, 129, 200)) if beyond else r.choice((64, 63, 62))
        m = r.choice((0, 1, 3)) if k == 'adds' else r.choice((n, n - 1, n // 2))
        adds = [f('x%d' % i, r.choice((g.t_bool, g.t_int))(), 'o') for i in range(n - m)]
        groups = [[f('g%d' % i, g.t_bool(), 'o')] for i in range(m)]
        t = seq([f('a', {'k': 'bool'})], True, adds, groups)
        names = [x['n'] for x in ir.ext_alts(t)]
        have = r.choice((names[:1], names[-1:], names[:3] + names[-2:], [x for x in names if r.random() < 0.5] or names[:1]))
        v = {'a': True}
        for x in ir.ext_alts(t):
            if x['n'] in have:
                v[x['n']] = g.value(x['t'])
        return t, v
    if k == 'seqof':
        t['elem'] = r.choice(({'k': 'bool'}, {'k': 'int', 'lb': 0, 'ub': 1, 'ext': False}, {'k': 'int', 'lb': 0, 'ub': 255, 'ext': False}))
        if t['lb'] is not None and t['lb'] == t['ub']:
            if n > 33000 and not beyond and r.random() < 0.8:
                n = t['lb'] = t['ub'] = 16384
        elif n > 17000 and r.random() < 0.8:
            n = 16384
            if t['lb'] and t['lb'] > n:
                t['lb'] = n
        m = [g.value(t['elem']) for _ in range(50)]
        v = (m * (n // 50 + 1))[:n]
    elif k == 'bits':
        v = g.bits(n)
    else:
        v = g.octets(n)
    return t, v


def generate(kind, r, ctx):
    g = gen.G(r, ctx.get('extra', ()), depth=1)
    if kind == 'forms':
        return forms(r, g)
    beyond = kind == 'beyond'
    t, v = inner(r, g, r.choice(BEYOND if beyond else BELOW), beyond)
    c = r.random()
    if c < 0.25:
        n = r.randrange(8)
        t = seq([f('p%d' % i, {'k': 'bool'}) for i in range(n)] + [f('x', t, r.choice('mo')), f('z', {'k': 'int', 'lb': 0, 'ub': 5, 'ext': False})])
        v = dict({'p%d' % i: True for i in range(n)}, x=v, z=3)
    elif c < 0.35:
        t, v = {'k': 'choice', 'root': [{'n': 'o', 't': {'k': 'bool'}}, {'n': 'x', 't': t}], 'ext': r.random() < 0.5, 'adds': [], 'groups': []}, ('x', v)
    elif c < 0.42:
        t, v = {'k': 'seqof', 'elem': t, 'lb': 0, 'ub': 3, 'ext': False}, [v]
    if not ir.valid(t, v):
        return None
    return {'t': t, 'v': v}


def forms(r, g):
    """A length determinant in a form the library does not have, in an otherwise short input."""
    k = r.choice(('octs', 'bits', 'seqof', 'int', 'open', 'alt', 'bitmap', 'extsize', 'unknown'))
    head = r.choice((0xC0, 0xC1, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xC8, 0xD1, 0xE1, 0xFF))
    body = bytes(r.getrandbits(8) for _ in range(r.choice((0, 1, 2, 10, 200, 16384))))
    return {'form': k, 'head': head, 'body': body, 'off': r.randrange(8)}


def run_form(case, obs):
    k, n = case['form'], case['off']
    elem = {'k': 'int', 'lb': 0, 'ub': 255, 'ext': False}
    pre = [f('p%d' % i, {'k': 'bool'}) for i in range(n)]
    free = {'octs': EIGHT, 'bits': dict(EIGHT, k='bits'), 'seqof': dict(EIGHT, k='seqof', elem=elem),
            'int': {'k': 'int', 'lb': None, 'ub': None, 'ext': False}}
    w = ref.W()
    if k in free:
        t = seq(pre + [f('x', free[k])])
        w.bits('1' * n)
    elif k == 'extsize':
        t = seq(pre + [f('x', {'k': 'octs', 'lb': 1, 'ub': 2, 'ext': True})])
        w.bits('1' * n + '1')
    elif k == 'open':
        t = seq(pre, True, [f('x', EIGHT, 'o')])
        w.bits('1' + '1' * n + '0000000' + '1')
    elif k == 'unknown':        # an addition the receiver does not know has to be skipped: impossible without its length
        t = seq(pre, True, [f('x', EIGHT, 'o')])
        w.bits('1' + '1' * n + '0000001' + '01')
    elif k == 'alt':
        t = {'k': 'choice', 'root': [{'n': 'a', 't': {'k': 'bool'}}], 'ext': True, 'adds': [{'n': 'x', 't': EIGHT}], 'groups': []}
        w.bits('1' + '0000000')
    else:                        # bitmap of more than 64 bits
        t = seq(pre, True, [f('x', EIGHT, 'o')])
        w.bits('1' + '1' * n + '1')
    w.align()
    w.num(case['head'] if k != 'bitmap' else 65 + case['head'] % 60, 8)
    data = ref.bits_to_bytes(w.text()) + case['body']
    nd = build.build(t)
    try:
        d = decode(per_stream=data, asn1Spec=nd.cls())
    except Exception as e:
        if not runner.from_library(e):
            raise
        obs.event('fragment headers refused')
        obs.state('forms refused', k, case['head'], len(case['body']))
        return None
    return 'decoded: %s (%s) as %s' % (data[:20].hex(), k, brief(observe.value(nd, d)))


def run(case, obs):
    if 'form' in case:
        return run_form(case, obs)
    t, v = case['t'], case['v']
    n = build.build(t)
    want = work.expected(t, v)
    o = n.make(v)
    if want is not None:
        got = bytes(encode(asn1Spec=o))
        if got != want:
            return 'below: encodes to %s... (%d octets), X.691 gives %s... (%d octets)' % (got[:20].hex(), len(got), want[:20].hex(), len(want))
        d = decode(per_stream=want, asn1Spec=n.cls())
        back = observe.value(n, d)
        if back != ir.complete(t, v):
            return 'below: decodes as %s' % brief(back)
        obs.event('worked below the limit')
        obs.state('below', shape(t, v))
        return None
    try:
        got = encode(asn1Spec=o)
    except Exception as e:
        if not runner.from_library(e):
            raise
        obs.event('encode raised')
        obs.state('beyond, encode', shape(t, v))
    else:
        return 'encoded: a value beyond the limits gives %s... (%d octets)' % (bytes(got)[:20].hex(), len(got))
    data = ref.encode(t, v, fragments=True)
    try:
        d = decode(per_stream=data, asn1Spec=n.cls())
    except Exception as e:
        if not runner.from_library(e):
            raise
        obs.event('decode raised')
        obs.state('beyond, decode', shape(t, v))
        return None
    return 'decoded: fragmented encoding %s... of %s as %s' % (data[:20].hex(), brief(v), brief(observe.value(n, d)))


def shape(t, v):
    k = t['k']
    if k in ('octs', 'bits', 'seqof'):
        return (k, len(v) if len(v) > 16000 else 0, t['ext'], t['lb'] == t['ub'], t['ub'] is None)
    if k == 'seq':
        return (k, len(t['adds']), len(t['groups'])) + tuple(shape(x['t'], v[x['n']]) for x in ir.alts(t)[:9] if x['n'] in v)
    if k == 'choice':
        return (k,) + tuple(shape(a['t'], v[1]) for a in ir.alts(t) if a['n'] == v[0])
    return k


def brief(v):
    return repr(ir.to_json(v))[:200]
