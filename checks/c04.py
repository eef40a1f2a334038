"""C04 Versions of an extensible type interwork."""
from asn1PERser import encode, decode
from vlib import build, gen, ir, ref, versions, work

ID = 'C04'
RULE = ('seeded extensible types; an older version drops a tail of the additions, groups, items and alternatives at any '
        'depth; messages of each version go through the real codec of the other one and are compared with the '
        'projection (newer to older) or completion (older to newer) of the value; unknown items and alternatives must '
        'raise and nothing else may; non-trivial: the versions differ')
PLAN = {'quick': {'flat': 7000, 'deep': 9000, 'list': 5000, 'many': 1500},
        'thorough': {'flat': 80000, 'deep': 110000, 'list': 60000, 'many': 20000}}
NEED = {'newer message read by older version': 5000, 'older message read by newer version': 5000,
        'unknown item or alternative refused': 400, 'additions skipped': 3000}
ASSUMPTIONS = ['a later version only appends extension additions (X.680 rules for extensible types)',
               'where a message holds an unknown item or alternative anywhere in a known part, decode raises']
context = work.context


def nontrivial(case):
    return case['t'] != case['old']


def make(kind, r, ctx):
    g = gen.G(r, ctx.get('extra', ()), depth=1 if kind == 'flat' else r.choice((2, 2, 3)), max_len=12)
    if kind == 'many':
        n = r.choice((3, 8, 9, 16, 17, 62, 63, 64, 60))
        k = r.choice((0, 1, 2))
        n = min(n, 64 - k)
        t = {'k': 'seq', 'root': [g.field(1) for _ in range(r.choice((0, 1, 2)))], 'ext': True,
             'adds': [{'n': 'x%d' % i, 't': r.choice((g.t_bool, g.t_int, g.t_octs, g.t_bits))(), 'o': 'o'} for i in range(n)],
             'groups': [[{'n': 'g%d%d' % (j, i), 't': r.choice((g.t_bool, g.t_int))(), 'o': 'o'} for i in range(r.choice((1, 2)))]
                        for j in range(k)]}
        if r.random() < 0.2:
            ns = gen.items(r, r.choice((66, 70, 130, 258)))
            t = {'k': 'enum', 'root': ns[:2], 'ext': True, 'adds': ns[2:]}
        elif r.random() < 0.25:
            al = [{'n': 'a%d' % i, 't': {'k': 'bool'}} for i in range(r.choice((5, 66, 70, 130)))]
            t = {'k': 'choice', 'root': al[:2], 'ext': True, 'adds': al[2:], 'groups': []}
    else:
        for _ in range(30):
            t = r.choice((g.t_seq, g.t_seq, g.t_seq, g.t_choice, g.t_seqof))(g.depth)
            if any(x.get('adds') or x.get('groups') for x in ir.walk(t)):
                break
    tail = {'n': 'tail', 't': {'k': 'int', 'lb': 0, 'ub': r.choice((6, 255, 300, 70000)), 'ext': False}, 'o': 'm'}
    if kind == 'list' or (kind == 'many' and r.random() < 0.4):
        inner = {'k': 'seq', 'root': [{'n': 'head', 't': {'k': 'bool'}, 'o': r.choice('mo')}, {'n': 'body', 't': t, 'o': r.choice('mmo')}, tail],
                 'ext': r.random() < 0.3, 'adds': [], 'groups': []}
        t = {'k': 'seqof', 'elem': inner, 'lb': None, 'ub': None, 'ext': False}
    elif r.random() < 0.5:
        t = {'k': 'seq', 'root': [{'n': 'body', 't': t, 'o': 'm'}, tail], 'ext': r.random() < 0.3, 'adds': [], 'groups': []}
    return g, t


def generate(kind, r, ctx):
    g, t = make(kind, r, ctx)
    old = versions.older(t, r, p=r.choice((0.5, 0.9, 1)))
    v = g.value(t)
    for _ in range(6):      # values that old knows more often than not
        try:
            versions.project(old, v)
            break
        except versions.Unknown:
            if r.random() < 0.25:
                break
            v = g.value(t)
    return {'t': t, 'old': old, 'v': v, 'w': g.value(old), 'how': r.randrange(3)}


def skipped(t, old, v):
    k = t['k']
    if k == 'seqof':
        return sum(skipped(t['elem'], old['elem'], x) for x in v)
    m = {f['n']: f for f in ir.alts(old)} if k in ('seq', 'choice') else {}
    if k == 'choice':
        return sum(skipped(a['t'], m[a['n']]['t'], v[1]) for a in ir.alts(t) if a['n'] == v[0] and a['n'] in m)
    if k == 'seq':
        return sum(skipped(f['t'], m[f['n']]['t'], v[f['n']]) if f['n'] in m else 1 for f in ir.alts(t) if f['n'] in v)
    return 0


def run(case, obs):
    t, old, v, w = case['t'], case['old'], case['v'], case['w']
    new_n, old_n = build.build(t), build.build(old)
    data = work.expected(t, v)
    if data is not None:
        try:
            want = ir.complete(old, versions.project(old, v))
        except versions.Unknown:
            want = None
        mine = bytes(encode(asn1Spec=new_n.make(v, case['how'])))
        for what, x in (('library', mine), ('reference', data)):
            try:
                d = decode(per_stream=x, asn1Spec=old_n.cls())
                got = old_n.read(d)
            except Exception as e:
                if want is not None:
                    return ('newer to older: %s message %s of %r raises %s: %s, expected %r' %
                            (what, x.hex(), v, type(e).__name__, str(e)[:200], want))
                obs.event('unknown item or alternative refused')
                continue
            if want is None:
                return ('unknown: %s message %s of %r uses something the receiver does not know, but was read as %r' %
                        (what, x.hex(), v, got))
            if got != want:
                return 'newer to older: %s message %s of %r read as %r, expected %r' % (what, x.hex(), v, got, want)
            obs.event('newer message read by older version')
            n = skipped(t, old, v)
            if n:
                obs.event('additions skipped', n)
        if want is not None and ir.complete_message(old, want) is True:
            relay = bytes(encode(asn1Spec=d))
            should = work.expected(old, want)
            if should is not None:
                if relay != should:
                    return 'relay: %s read by the older version and sent on as %s, expected %s' % (x.hex(), relay.hex(), should.hex())
                obs.event('relayed')
    data = work.expected(old, w)
    if data is not None:
        want = ir.complete(t, w)
        mine = bytes(encode(asn1Spec=old_n.make(w, case['how'])))
        for what, x in (('library', mine), ('reference', data)):
            try:
                got = new_n.read(decode(per_stream=x, asn1Spec=new_n.cls()))
            except Exception as e:
                return 'older to newer: %s message %s of %r raises %s: %s' % (what, x.hex(), w, type(e).__name__, str(e)[:200])
            if got != want:
                return 'older to newer: %s message %s of %r read as %r, expected %r' % (what, x.hex(), w, got, want)
            obs.event('older message read by newer version')
    obs.state('version differences', min(20, versions.differs(t, old)))
    work.keys(obs, t, v)


def shrink(case):
    t, old, v, w = case['t'], case['old'], case['v'], case['w']
    if t['k'] in ('seq', 'choice'):
        known = {x['n']: x for x in ir.alts(old)}
        for f in ir.alts(t):
            n = f['n']
            if n not in known:
                continue
            if t['k'] == 'seq' and n in v and n in w:
                yield dict(case, t=f['t'], old=known[n]['t'], v=v[n], w=w[n])
            elif t['k'] == 'choice' and v[0] == n == w[0]:
                yield dict(case, t=f['t'], old=known[n]['t'], v=v[1], w=w[1])
    if t['k'] == 'seq':
        for n in list(v):
            x = {a: b for a, b in v.items() if a != n}
            if ir.complete_message(t, x) is True:
                yield dict(case, v=x)
        for n in list(w):
            x = {a: b for a, b in w.items() if a != n}
            if ir.complete_message(old, x) is True:
                yield dict(case, w=x)
    elif t['k'] == 'seqof':
        for key in 'vw':
            x = case[key]
            for y in x:
                if len(x) > 1 and ir.valid(t, [y]):
                    yield dict(case, **{key: [y]})
        if len(v) == 1 and len(w) == 1:
            yield dict(case, t=t['elem'], old=old['elem'], v=v[0], w=w[0])
