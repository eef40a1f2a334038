"""C06 Incomplete messages are never encoded."""
import random
from pyasn1.type.univ import noValue
from asn1PERser import encode, decode
from vlib import build, gen, ir, paths, runner, work

ID = 'C06'
RULE = ('seeded types; a value of the type from which random components, alternatives and groups are taken away at any '
        'depth; a model of X.680 says whether the rest is a complete message; encode must raise if not and must '
        'produce the reference octets if so; non-trivial: something is missing')
PLAN = {'quick': {'flat': 12000, 'deep': 9000, 'ext': 14000, 'fresh': 3000},
        'thorough': {'flat': 130000, 'deep': 110000, 'ext': 160000, 'fresh': 30000}}
NEED = {'incomplete refused': 5000, 'complete accepted': 5000, 'missing mandatory addition refused': 300,
        'missing in group refused': 300, 'missing parts read before': 1000, 'object used before': 800,
        'parts of a decoded message unset': 1000, 'parts unset after the message was sent': 1000, 'no alternative refused': 200}
ASSUMPTIONS = ['any exception counts as refusal',
               'a missing group with both mandatory and optional components before a present group is left open (X.680 '
               'does not settle it) and not judged']
context = work.context


def ext_type(g, r):
    def field(o):
        f = {'n': g.ident(), 't': g.type(1) if r.random() < 0.3 else g.t_simple(), 'o': o}
        if o == 'd' and f['t']['k'] in ('seq', 'seqof', 'choice'):
            f['o'] = 'o'
        elif o == 'd':
            f['d'] = g.value(f['t'])
        return f
    ps = r.choice(('m', 'mmo', 'mo', 'mod', 'moo'))
    return {'k': 'seq', 'root': [field(r.choice(ps)) for _ in range(r.choice((0, 1, 2)))], 'ext': True,
            'adds': [field(r.choice(ps)) for _ in range(r.choice((0, 0, 1, 2, 3, 4)))],
            'groups': [[field(r.choice(ps)) for _ in range(r.choice((1, 1, 2, 3)))] for _ in range(r.choice((0, 1, 2, 3, 4)))]}


def full(g, t):
    """A value with everything there."""
    if t['k'] == 'seq':
        return {f['n']: full(g, f['t']) for f in ir.alts(t)}
    if t['k'] == 'seqof':
        return [full(g, t['elem']) for _ in g.value(t)]
    return g.value(t)


def thin(r, t, v, p, pc):
    """Take away components with probability p, alternatives with probability pc."""
    k = t['k']
    if k == 'seqof':
        return [thin(r, t['elem'], x, p, pc) for x in v]
    if k == 'choice':
        if v is None or r.random() < pc:
            return None
        return (v[0], thin(r, [a for a in ir.alts(t) if a['n'] == v[0]][0]['t'], v[1], p, pc))
    if k == 'seq':
        ext = {f['n'] for f in ir.ext_alts(t)}
        out = {}
        for f in ir.alts(t):
            if f['n'] in v and r.random() > (p if f['n'] not in ext else max(p, 0.3)):
                out[f['n']] = thin(r, f['t'], v[f['n']], p, pc)
        return out
    return v


def generate(kind, r, ctx):
    g = gen.G(r, ctx.get('extra', ()), depth=1 if kind in ('flat', 'ext') else r.choice((2, 3)), max_len=8)
    if kind == 'ext':
        t = ext_type(g, r)
        if r.random() < 0.3:
            t = {'k': 'seq', 'root': [{'n': 'in', 't': t, 'o': r.choice('mo')}], 'ext': r.random() < 0.5, 'adds': [], 'groups': []}
        v = whole = full(g, t)
        if r.random() < 0.5:      # leave out one thing only
            v = dict(v)
            ps = [p for p, _, _ in paths.places(t, v) if p and isinstance(p[-1], str)]
            p, pc = 0, 0
            if ps:
                q = r.choice(ps)
                v = drop(v, q)
        else:
            p, pc = r.choice((0.15, 0.5)), 0.02
    else:
        for _ in range(20):
            t = r.choice((g.t_seq, g.t_seq, g.t_seq, g.t_choice, g.t_seqof))(g.depth)
            if any(x['k'] in ('seq', 'choice') for x in ir.walk(t)):
                break
        v = g.value(t) if r.random() < 0.5 else full(g, t)
        p, pc = r.choice(((0.05, 0), (0.2, 0), (0.5, 0.05), (0, 0.3), (0.05, 0.05)))
    if kind == 'fresh' or r.random() < 0.03:
        return {'t': t, 'v': nothing(t), 'how': 0, 'fresh': True}
    case = {'t': t, 'v': thin(r, t, v, p, pc), 'how': r.randrange(3), 'fresh': False}
    past = r.choice((None, None, 'read', 'reuse', 'unset', 'unset decoded'))
    if past:
        case['past'] = past
        case['seed'] = r.getrandbits(24)
    if past in ('reuse', 'unset', 'unset decoded'):
        case['was'] = whole if kind == 'ext' else v
    return case


def nothing(t):
    return {} if t['k'] == 'seq' else [] if t['k'] == 'seqof' else None


def drop(v, path):
    if isinstance(v, tuple):
        return None if len(path) == 1 else (v[0], drop(v[1], path[1:]))
    if isinstance(v, list):
        return v[:path[0]] + [drop(v[path[0]], path[1:])] + v[path[0] + 1:]
    if len(path) == 1:
        return {k: x for k, x in v.items() if k != path[0]}
    return dict(v, **{path[0]: drop(v[path[0]], path[1:])})


def make(n, v, how):
    """Like Node.make, with None for a CHOICE nothing was selected in."""
    k = n.t['k']
    if k == 'choice':
        o = n.cls()
        if v is not None:
            o[v[0]] = make(n.sub[v[0]], v[1], how)
        return o
    if k == 'seq':
        o = n.cls().clear()
        for f in ir.alts(n.t):
            if f['n'] in v:
                o[f['n']] = make(n.sub[f['n']], v[f['n']], how)
        return o
    if k == 'seqof':
        o = n.cls().clear()
        for x in v:
            o.append(make(n.sub['elem'], x, how))
        return o
    return n.make(v, how)


def with_past(n, case, obs):
    """The object for case['v'] that was read, held another message before, or from which parts were taken away."""
    past, given, how = case.get('past'), case['v'], case['how']
    if past is None:
        return make(n, given, how)
    r = random.Random(case['seed'])
    if past == 'read':
        o = make(n, given, how)
        read(n, o, ir.set_only(n.t, given), r)
        obs.event('missing parts read before')
        return o
    was = case['was']
    o = make(n, was, how)
    if past == 'unset decoded':
        try:
            o = decode(per_stream=encode(asn1Spec=o), asn1Spec=n.cls())
        except Exception:       # not judged here
            pass
        obs.event('parts of a decoded message unset')
    if past == 'reuse' and n.t['k'] in ('seq', 'choice'):
        try:
            encode(asn1Spec=o)
        except Exception:
            pass
        o.clear()
        if n.t['k'] == 'choice' and given is not None:
            o[given[0]] = make(n.sub[given[0]], given[1], how)
        if n.t['k'] == 'seq':
            for f in ir.alts(n.t):
                if f['n'] in given:
                    o[f['n']] = make(n.sub[f['n']], given[f['n']], how)
        obs.event('object used before')
        return o
    if r.random() < 0.6:        # sent once with everything in it
        try:
            encode(asn1Spec=o)
        except Exception:
            pass
        obs.event('parts unset after the message was sent')
    unset(n, o, was, ir.set_only(n.t, given), r)
    return o


def all_optional(t):
    return t['k'] == 'seq' and all(f['o'] != 'm' for f in t['root'])


def read(n, o, v, r):
    """Read what is not there. (A SEQUENCE that needs nothing is a value once it was read, so that is left alone.)"""
    k = n.t['k']
    if k == 'seq':
        for f in ir.alts(n.t):
            if f['n'] not in v:
                if not all_optional(f['t']) and r.random() < 0.6:
                    o[f['n']]
            else:
                read(n.sub[f['n']], o[f['n']], v[f['n']], r)
    elif k == 'seqof':
        for i, x in enumerate(v):
            read(n.sub['elem'], o[i], x, r)
    elif k == 'choice' and v is not None:
        read(n.sub[v[0]], o[v[0]], v[1], r)


def unset(n, o, was, now, r):
    k = n.t['k']
    if k == 'seq':
        for f in ir.alts(n.t):
            x = f['n']
            if x in was and x not in now:
                if all_optional(f['t']):
                    o[x].reset()
                elif f['t']['k'] == 'choice' and r.random() < 0.5:
                    o[x].clear()
                elif f['t']['k'] in ('seq', 'seqof') and r.random() < 0.5:
                    o[x].reset()
                else:
                    o.setComponentByName(x, noValue)
            elif x in now and x in was:
                unset(n.sub[x], o[x], was[x], now[x], r)
    elif k == 'seqof':
        for i, (a, b) in enumerate(zip(was, now)):
            unset(n.sub['elem'], o[i], a, b, r)
    elif k == 'choice' and was is not None:
        if now is None:
            o.clear()
        elif was[0] == now[0]:
            unset(n.sub[now[0]], o[now[0]], was[1], now[1], r)


def why(t, v, out):
    k = t['k']
    if k == 'choice':
        if v is None:
            out.add('no alternative')
        else:
            why([a for a in ir.alts(t) if a['n'] == v[0]][0]['t'], v[1], out)
    elif k == 'seqof':
        for x in v:
            why(t['elem'], x, out)
    elif k == 'seq':
        if any(f['o'] == 'm' and f['n'] not in v for f in t['root']):
            out.add('missing root component')
        only = dict(t, root=[])
        if ir.complete_message(dict(only, groups=[]), v) is False or ir.complete_message(
                dict(only, groups=[[dict(f, o='o') for f in g] for g in t['groups']]), v) is False:
            out.add('missing mandatory addition')
        if any(any(ir.sent(f, v) for f in g) and any(f['o'] == 'm' and f['n'] not in v for f in g) for g in t['groups']):
            out.add('missing in group')
        for f in ir.alts(t):
            if f['n'] in v:
                why(f['t'], v[f['n']], out)


def has_size(t, v):
    """Is v inside its size constraints? (taking elements away must not be what raises)"""
    try:
        return ir.valid(loose(t), v)
    except TypeError:
        return True


def loose(t):
    k = t['k']
    if k in ('seq', 'choice'):
        return dict(t, root=[dict(f, o='o', t=loose(f['t'])) for f in t['root']], adds=[dict(f, t=loose(f['t'])) for f in t['adds']],
                    groups=[[dict(f, t=loose(f['t'])) for f in g] for g in t['groups']])
    if k == 'seqof':
        return dict(t, elem=loose(t['elem']))
    return t


def run(case, obs):
    t, given = case['t'], case['v']
    v = ir.set_only(t, given)
    ok = ir.complete_message(t, v)
    if ok is None:
        obs.event('open')
        return
    n = build.build(t)
    want = work.expected(t, v) if ok and has_size(t, v) else None
    if ok and want is None:
        obs.event('unsupported or out of size')
        return
    try:
        if case['fresh']:
            data = bytes(encode(asn1Spec=n.cls()))
        else:
            data = bytes(encode(asn1Spec=with_past(n, case, obs)))
    except Exception as e:
        if not runner.from_library(e):
            raise
        if ok:
            return 'complete message refused: %r raises %s: %s' % (v, type(e).__name__, str(e)[:200])
        obs.event('incomplete refused')
        s = set()
        why(t, v, s)
        for x in s:
            obs.event(x + ' refused')
        obs.state('refusals', tuple(sorted(s)), type(e).__name__, t['k'])
        return
    if not ok:
        s = set()
        why(t, v, s)
        return 'incomplete (%s): %r was encoded as %s' % (', '.join(sorted(s)), v, data.hex())
    if data != want:
        return 'bytes: %r encoded as %s, X.691 says %s' % (v, data.hex(), want.hex())
    obs.event('complete accepted')


def shrink(case):
    t, v = case['t'], case['v']
    if v is None or case['fresh']:
        return
    if 'past' in case:
        yield {k: x for k, x in case.items() if k not in ('past', 'was', 'seed')}
        if 'was' in case:
            return
    for path, st, sv in paths.places(t, v):
        if path and sv is not None:
            yield dict(case, t=st, v=sv)
    if t['k'] == 'seq':
        for f in ir.alts(t):
            keep = {k: x for k, x in v.items() if k != f['n']}
            nt = dict(t, root=[x for x in t['root'] if x is not f], adds=[x for x in t['adds'] if x is not f],
                      groups=[[x for x in g if x is not f] for g in t['groups']])
            nt['groups'] = [g for g in nt['groups'] if g]
            yield dict(case, t=nt, v=keep)
