"""C07 Damaged input never decodes into a wrong message."""
from asn1PERser import decode
from vlib import build, gen, ir, ref, runner, work

ID = 'C07'
RULE = ('seeded types; octet strings made from valid messages by truncation at every octet, bit flips, octet changes, '
        'insertions, deletions, splices with another message, and random octets; the real decoder must end, and raise '
        'wherever the independent X.691 decoder finds no value, and otherwise raise or return that very value; intact '
        'messages must decode; non-trivial: the octets differ from the valid message')
PLAN = {'quick': {'flat': 5000, 'deep': 5500, 'sweep': 8000, 'tight': 5000},
        'thorough': {'flat': 60000, 'deep': 70000, 'sweep': 100000, 'tight': 60000}}
NEED = {'truncations refused': 15000, 'no value: refused': 30000, 'another value: equal': 15000}
ASSUMPTIONS = ['any exception counts as refusal', 'octets after the message are ignored or refused, as the decoder likes']
context = work.context


def tight(r, g):
    """Types most of whose bit patterns are invalid: ranges, indexes and sizes that are no power of two."""
    def leaf():
        c = r.choice(('int', 'int', 'enum', 'bits', 'octs', 'seqof', 'choice', 'big'))
        if c == 'int':
            lb = r.choice((0, 0, 1, -3, 100))
            return {'k': 'int', 'lb': lb, 'ub': lb + r.choice((2, 4, 5, 8, 9, 99, 129, 200, 253, 254, 256, 299, 999, 40000, 65534)),
                    'ext': r.random() < 0.2}
        if c == 'big':
            lb = r.choice((0, 0, 1, -3, 1000))
            return {'k': 'int', 'lb': lb, 'ub': lb + r.choice((65536, 70000, 100000, 1 << 20, 10 ** 9, 1 << 33, 10 ** 15)), 'ext': r.random() < 0.2}
        if c == 'enum':
            n = r.choice((1, 2, 3, 5, 6, 7, 9, 17, 33, 100, 129, 200, 255, 257, 300))
            m = r.choice((0, 0, 1, 2, 5, 65)) if r.random() < 0.5 else 0
            ns = gen.items(r, n + m)
            return {'k': 'enum', 'root': ns[:n], 'ext': m > 0 or r.random() < 0.2, 'adds': ns[n:]}
        if c == 'choice':
            n = r.choice((1, 2, 3, 5, 6, 9, 17, 129, 300))
            m = r.choice((0, 0, 1, 2, 5))
            al = [{'n': 'a%d' % i, 't': {'k': 'bool'}} for i in range(n + m)]
            return {'k': 'choice', 'root': al[:n], 'ext': m > 0 or r.random() < 0.3, 'adds': al[n:], 'groups': []}
        lb = r.choice((0, 1, 2, 3))
        ub = r.choice((None, lb + 2, lb + 4, lb + 5, lb + 9, lb + 100, lb + 300, 70000))
        t = {'k': c, 'lb': lb, 'ub': ub, 'ext': ub is not None and r.random() < 0.2}
        if c == 'seqof':
            t['elem'] = {'k': 'int', 'lb': 0, 'ub': r.choice((0, 2, 4, 300)), 'ext': False}
        return t
    n = r.choice((1, 2, 3))
    fs = [{'n': 'f%d' % i, 't': leaf(), 'o': r.choice('mmo')} for i in range(n)]
    t = {'k': 'seq', 'root': fs, 'ext': r.random() < 0.3, 'adds': [], 'groups': []}
    if t['ext'] and r.random() < 0.7:
        t['adds'] = [{'n': 'x%d' % i, 't': leaf(), 'o': 'o'} for i in range(r.choice((1, 2)))]
    return t


def damage(r, data, other):
    c = r.choice(('flip', 'flip', 'flip', 'flip2', 'octet', 'ins', 'del', 'splice', 'random', 'head', 'append', 'ones', 'zero'))
    b = bytearray(data)
    if c in ('flip', 'flip2'):
        for _ in range(1 if c == 'flip' else r.choice((2, 3))):
            i = r.randrange(8 * len(b)) if r.random() < 0.6 else r.randrange(min(8 * len(b), 24))
            b[i // 8] ^= 0x80 >> (i % 8)
    elif c == 'octet':
        b[r.randrange(len(b))] = r.choice((0, 1, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xff, r.randrange(256)))
    elif c == 'ins':
        i = r.randrange(len(b) + 1)
        b[i:i] = bytes(r.randrange(256) for _ in range(r.choice((1, 1, 2, 5))))
    elif c == 'del':
        i = r.randrange(len(b))
        del b[i:i + r.choice((1, 1, 2, 5))]
    elif c == 'splice':
        i = r.randrange(len(b) + 1)
        j = r.randrange(len(other) + 1)
        b = b[:i] + bytearray(other)[j:]
    elif c == 'random':
        b = bytearray(r.randrange(256) for _ in range(r.choice((0, 1, 2, 3, 5, 8, 20, 60))))
    elif c == 'head':
        b[0] = r.randrange(256)
    elif c == 'append':
        b += bytes(r.randrange(256) for _ in range(r.choice((1, 2, 9))))
    elif c == 'ones':
        i = r.randrange(len(b))
        b[i:i + r.choice((1, 2, 4))] = b'\xff' * r.choice((1, 2, 4))
    elif c == 'zero':
        i = r.randrange(len(b))
        b[i:i + r.choice((1, 2, 4))] = bytes(r.choice((1, 2, 4)))
    return bytes(b[:600])


def generate(kind, r, ctx):
    if kind == 'tight':
        g = gen.G(r, ctx.get('extra', ()), depth=1, max_len=10)
        t = tight(r, g)
        c = {'t': t, 'v': g.value(t), 'how': 0, 'share': False}
        other = g.value(t)
    else:
        c = work.make(kind, r, ctx)
        other = gen.G(r, depth=1, max_len=12).value(c['t'])
    data = work.expected(c['t'], c['v'])
    if data is None or len(data) > 1500:
        return None
    o = work.expected(c['t'], other) or data
    c['data'] = data
    ds = [damage(r, data, o) for _ in range(9)]
    cuts = sorted(set(range(min(len(data), 30))) | {len(data) - 1, len(data) // 2})
    c['damaged'] = ds + [data[:i] for i in cuts if i < len(data)]
    c['ncut'] = len(c['damaged']) - len(ds)
    del c['v']
    return c


def canonical(t, v, x):
    try:
        return ir.complete_message(t, v) is True and ref.encode(t, v) == x
    except (ref.Unsupported, AssertionError):
        return False


def judge(n, t, x):
    """(what the reference says, complaint)."""
    raw = None
    try:
        raw = ref.decode(t, x)[0]
        want = ir.complete(t, raw)
        says = 'value'
    except ref.RefError:
        want, says = None, 'no value'
    except ref.Unsupported:
        want, says = None, 'unsupported'
    except ref.Open:
        want, says = None, 'left open'
    try:
        got = n.read(decode(per_stream=x, asn1Spec=n.cls()))
    except Exception as e:
        if not runner.from_library(e):
            raise
        if says == 'value' and canonical(t, raw, x):
            return says, 'refused', 'intact message refused: %s, X.691 says %s' % (x.hex(), repr(want)[:400])
        return says, 'refused', None
    if says == 'no value':
        return says, 'accepted', 'damaged: %s is no encoding of the type, but was read as %s' % (x.hex(), repr(got)[:400])
    if says == 'value' and got != want:
        return says, 'different', 'wrong value: %s read as %s, X.691 says %s' % (x.hex(), repr(got)[:400], repr(want)[:400])
    return says, 'equal' if says == 'value' else 'accepted', None


def run(case, obs):
    t = case['t']
    n = build.build(t, memo={} if case['share'] else None)
    if case.get('data') is not None:
        says, what, bad = judge(n, t, case['data'])
        if bad:
            return bad
        if what != 'equal':
            return 'intact message refused: %s' % case['data'].hex()
        obs.event('intact messages read')
    k = len(case['damaged']) - case['ncut']
    for i, x in enumerate(case['damaged']):
        says, what, bad = judge(n, t, x)
        if bad:
            return bad
        if i >= k and says != 'value':
            obs.event('truncations refused')
        elif says == 'value':
            obs.event('another value: ' + what)
        else:
            obs.event('%s: %s' % (says, what))
        obs.state('damage outcomes', t['k'], says, what, len(x))


def shrink(case):
    if len(case['damaged']) > 1:
        for x in case['damaged']:
            yield dict(case, damaged=[x], ncut=0, data=None)
        return
    t = case['t']
    if t['k'] in ('seq', 'choice'):
        for part in ('groups', 'adds', 'root'):
            for i in range(len(t[part])):
                if part != 'root' or len(t['root']) > 1:
                    yield dict(case, t=dict(t, **{part: t[part][:i] + t[part][i + 1:]}))
        for f in ir.alts(t):
            yield dict(case, t=f['t'])
    if t['k'] == 'seqof':
        yield dict(case, t=t['elem'])
    for x in case['damaged']:
        if x:
            yield dict(case, damaged=[x[1:]])
            yield dict(case, damaged=[x[:-1]])
