"""C08 Operations leave their inputs and each other alone."""
import copy
from asn1PERser import encode, decode
from vlib import build, gen, ir, observe, paths, ref, runner, work

ID = 'C08'
RULE = ('seeded histories of 8..40 operations (build, encode, decode with fresh, shared and already filled type objects, decode of a buffer used again, '
        'damaged decode, incomplete encode, to_dict, str, graft, change in place) on one to three types that '
        'may share classes; after every operation the monitor compares everything readable from every live object, '
        'type object and byte string with what it was, and the result with the one the model gives for these arguments '
        'alone; at the end the classes must define what they defined before')
PLAN = {'quick': {'one': 1200, 'many': 1400, 'ext': 900, 'flood': 160},
        'thorough': {'one': 16000, 'many': 19000, 'ext': 12000, 'flood': 3000}}
NEED = {'operations': 20000, 'objects found unchanged': 100000, 'failed operations': 2000, 'changes in place': 1500, 'results found unchanged': 3000, 'operations in floods': 50000}
ASSUMPTIONS = ['reading a component with [] instantiates it (pyasn1); the monitor reads without instantiating']
context = work.context
OPS = ('build', 'build', 'encode', 'encode', 'encode', 'decode', 'decode', 'decode', 'decode', 'bad', 'bad', 'incomplete',
       'dict', 'dict', 'str', 'change', 'change', 'append', 'graft', 'wrongset', 'reuse')


FLOODS = ('flood bad', 'flood bad', 'flood good', 'flood incomplete', 'flood build', 'flood set')


def generate(kind, r, ctx):
    g = gen.G(r, ctx.get('extra', ()), depth=r.choice((1, 2, 2, 3)), max_len=10)
    ts = []
    for _ in range(1 if kind == 'one' else r.choice((2, 2, 3))):
        for _ in range(20):
            t = r.choice((g.t_seq, g.t_seq, g.t_seq, g.t_choice, g.t_seqof))(g.depth)
            if sum(1 for _ in ir.walk(t)) < 60 and (kind not in ('ext', 'flood') or any(x.get('adds') or x.get('groups') for x in ir.walk(t))):
                break
        ts.append(t)
    if r.random() < 0.4:     # one type inside another
        ts.append({'k': 'seq', 'root': [{'n': 'in', 't': ts[0], 'o': r.choice('mo')}, {'n': 'l', 't': {'k': 'seqof', 'elem': ts[-1], 'lb': 0, 'ub': 9, 'ext': False}, 'o': 'o'}],
                   'ext': False, 'adds': [], 'groups': []})
    vals = [[g.value(t) for _ in range(3)] for t in ts]
    ops = []
    if kind == 'flood':
        ts, vals = ts[:1], vals[:1]
        for f in (r.choice(FLOODS), r.choice(FLOODS)):
            ops.append([f, 0, r.randrange(1000), r.randrange(1000), r.randrange(1 << 30)])
            for op in ('build', 'encode', 'decode', 'decode', 'dict'):
                ops.append([op, 0, r.randrange(1000), r.randrange(1000), r.randrange(1 << 30)])
        return {'ts': ts, 'vals': vals, 'ops': ops, 'share': True, 'n': r.choice((150, 300, 300, 600))}
    for _ in range(r.choice((8, 16, 25, 40))):
        ops.append([r.choice(OPS), r.randrange(1000), r.randrange(1000), r.randrange(1000), r.randrange(1 << 30)])
    return {'ts': ts, 'vals': vals, 'ops': ops, 'share': r.random() < 0.7}


class Live(object):
    def __init__(self, ti, o, v, fixed=False):
        self.ti, self.o, self.v, self.fixed = ti, o, v, fixed
        self.fp = None


def run(case, obs):
    import random
    ts = case['ts']
    vals = [[v for v in vs if work.expected(t, v) is not None] for t, vs in zip(ts, case['vals'])]
    if not all(vals):
        obs.event('unsupported (see C14)')
        return
    memo = {} if case['share'] else None
    ns = [build.build(t, memo=memo) for t in ts]
    before = [observe.schema(n) for n in ns]
    specs = [n.cls() for n in ns]
    spec_fp = [observe.full(n, s) for n, s in zip(ns, specs)]
    streams = [[bytearray(work.expected(t, v)) for v in vs] for t, vs in zip(ts, vals)]
    live, handed = [], []
    buffer, buffer_was = bytearray(), b''

    def look():
        for i, x in enumerate(live):
            fp = observe.full(ns[x.ti], x.o)
            if fp != x.fp:
                return 'changed: message %d of type %d was %s, is %s' % (i, x.ti, repr(x.fp)[:700], repr(fp)[:700])
        for i, s in enumerate(specs):
            if observe.full(ns[i], s) != spec_fp[i]:
                return 'changed: type object %d was %s, is %s' % (i, repr(spec_fp[i])[:500], repr(observe.full(ns[i], s))[:500])
        for t, vs, ss in zip(ts, vals, streams):
            for v, s in zip(vs, ss):
                if bytes(s) != work.expected(t, v):
                    return 'changed: byte string'
        for d, was in handed:
            if not observe.same(d, was):
                return 'changed: a result of to_dict was %s, is %s' % (repr(was)[:500], repr(d)[:500])
        obs.event('results found unchanged', len(handed))
        obs.event('objects found unchanged', len(live) + len(specs))

    def keep(x):
        x.fp = observe.full(ns[x.ti], x.o)
        if observe.value(ns[x.ti], x.o) != ir.complete(ts[x.ti], x.v):
            return 'value: new message reads %r, expected %r' % (observe.value(ns[x.ti], x.o), x.v)
        live.append(x)
        if len(live) > 7:
            live.pop(0)

    for step, (op, a, b, c, seed) in enumerate(case['ops']):
        r = random.Random(seed)
        ti = a % len(ts)
        t, n = ts[ti], ns[ti]
        vi = b % len(vals[ti])
        obs.event('operations')
        bad = None
        x = live[b % len(live)] if live else None
        if op == 'build' or (x is None and op not in ('decode', 'bad', 'incomplete', 'reuse') + FLOODS):
            bad = keep(Live(ti, n.make(vals[ti][vi], c % 3), vals[ti][vi]))
        elif op == 'encode':
            got, want = bytes(encode(asn1Spec=x.o)), work.expected(ts[x.ti], x.v)
            if want is not None and got != want:
                bad = 'result: encode gives %s, alone it gives %s' % (got.hex(), want.hex())
        elif op == 'decode':
            same = [y for y in live if y.ti == ti]
            spec = (n.cls(), specs[ti], specs[ti], same[c % len(same)].o if same else specs[ti])[c % 4]
            d = decode(per_stream=streams[ti][vi] if c % 3 else bytes(streams[ti][vi]), asn1Spec=spec)
            if d is spec or any(d is y.o for y in live):
                bad = 'aliasing: decode returned an object that existed before'
            else:
                bad = keep(Live(ti, d, present(t, vals[ti][vi])))
        elif op == 'bad':
            s = bytearray(streams[ti][vi])
            if c % 2:
                s = s[:c % len(s)]
            else:
                i = c % (8 * len(s))
                s[i // 8] ^= 0x80 >> (i % 8)
                s = s[:max(1, len(s) - c % 3)]
            was = bytes(s)
            try:
                decode(per_stream=s, asn1Spec=specs[ti])
            except Exception as e:
                if not runner.from_library(e):
                    raise
                obs.event('failed operations')
            if bytes(s) != was:
                bad = 'changed: byte string given to decode'
        elif op == 'incomplete':
            from checks import c06
            v = c06.thin(r, t, vals[ti][vi], 0.4, 0.2)
            o = c06.make(n, v, c % 3)
            was = observe.full(n, o)
            try:
                encode(asn1Spec=o)
            except Exception as e:
                if not runner.from_library(e):
                    raise
                obs.event('failed operations')
            if observe.full(n, o) != was:
                bad = 'changed: incomplete message was %s, after encode it is %s' % (repr(was)[:500], repr(observe.full(n, o))[:500])
        elif op.startswith('flood'):
            bad = flood(op, case['n'], n, t, vals[ti], vi, streams[ti], specs[ti], r, obs)
        elif op == 'reuse':     # one buffer that receives message after message
            if bytes(buffer) != buffer_was:
                bad = 'changed: buffer given to decode'
            buffer[:] = buffer_was = work.expected(t, vals[ti][vi])
            spec = specs[ti] if c % 2 else n.cls()
            bad = bad or keep(Live(ti, decode(per_stream=buffer, asn1Spec=spec), present(t, vals[ti][vi])))
            vi = (vi + 1) % len(vals[ti])
            buffer[:] = buffer_was = work.expected(t, vals[ti][vi])
            bad = bad or keep(Live(ti, decode(per_stream=buffer, asn1Spec=spec), present(t, vals[ti][vi])))
        elif op == 'dict':
            d = x.o.to_dict()
            if not observe.same(d, observe.as_dict(ts[x.ti], x.v)):
                bad = 'result: to_dict gives %r for %r' % (d, x.v)
            if c % 2:
                scribble(d)
            else:
                handed.append((d, copy.deepcopy(d)))
                del handed[:-6]
        elif op == 'str':
            str(x.o), repr(x.o)
        elif op in ('change', 'append', 'wrongset'):
            if x.fixed:
                continue
            ps = [p for p in paths.places(ts[x.ti], x.v) if p[0]]
            if not ps:
                continue
            path, pt, pv = ps[c % len(ps)]
            node = paths.node_at(ns[x.ti], path)
            if op == 'append':
                ps = [p for p in ps if p[1]['k'] == 'seqof']
                if not ps:
                    continue
                path, pt, pv = ps[c % len(ps)]
                node = paths.node_at(ns[x.ti], path)
                y = gen.G(r, depth=1, max_len=8).value(pt['elem'])
                if not ir.valid(pt, pv + [y]):
                    continue
                o = x.o
                for p in path:
                    o = o[p]
                o.append(node.sub['elem'].make(y))
                x.v = paths.replaced(x.v, path, pv + [y])
            elif op == 'change':
                y = gen.G(r, depth=1, max_len=8).value(pt)
                paths.put(x.o, path, node.make(y, c % 3))
                x.v = paths.replaced(x.v, path, y)
            else:       # an assignment that fails leaves the message alone
                try:
                    paths.put(x.o, path, object())
                except Exception as e:
                    if not runner.from_library(e):
                        raise
                    obs.event('failed operations')
                else:
                    bad = 'result: assigning object() worked'
            obs.event('changes in place')
            if op != 'wrongset':
                x.fp = observe.full(ns[x.ti], x.o)
                if observe.value(ns[x.ti], x.o) != ir.complete(ts[x.ti], x.v):
                    bad = 'value: changed message reads %r, expected %r' % (observe.value(ns[x.ti], x.o), x.v)
        elif op == 'graft':
            if ts[x.ti]['k'] != 'seq':
                continue
            o = ns[x.ti].cls().clear()
            for f in x.v:
                o[f] = x.o[f]
            x.fixed = True
            bad = keep(Live(x.ti, o, x.v, True))
        bad = bad or look()
        if bad:
            return '%s (after step %d, %s)' % (bad, step, op)
        obs.state('operation pairs', op, case['ops'][step - 1][0] if step else None, len(ts), case['share'])
    after = [observe.schema(n) for n in ns]
    if after != before:
        return 'schema: classes changed from %s to %s' % (str(before)[:700], str(after)[:700])
    for n, s in zip(ns, specs):
        if observe.full(n, n.cls()) != observe.full(n, s):
            return 'schema: a new type object differs from one made before the history'
    obs.event('histories')


def flood(op, count, n, t, vs, vi, streams, spec, r, obs):
    """The same sort of operation many times over in one process; the operations after it judge what it left behind."""
    from checks import c06
    obs.event('operations in floods', count)
    s = bytes(streams[vi])
    want = ir.complete(t, present(t, vs[vi]))
    if op == 'flood bad':
        cuts = [s[:i] for i in range(len(s))]
        for i in range(count):
            if cuts and i % 3:
                x = cuts[-1 - i % len(cuts)]
            else:
                x = bytearray(s)
                j = r.randrange(8 * len(s))
                x[j // 8] ^= 0x80 >> (j % 8)
                x = x[:max(1, len(x) - r.randrange(3))]
            try:
                decode(per_stream=x, asn1Spec=spec)
            except Exception as e:
                if not runner.from_library(e):
                    raise
                obs.event('failed operations')
    elif op == 'flood good':
        for i in range(count // 3):
            d = decode(per_stream=s, asn1Spec=spec)
            if i % 20 == 0 and observe.value(n, d) != want:
                return 'result: decode number %d gives %r, not %r' % (i, observe.value(n, d), want)
            if i % 3 == 0 and bytes(encode(asn1Spec=d)) != s:
                return 'result: encode number %d differs' % i
    elif op == 'flood incomplete':
        v = c06.thin(r, t, vs[vi], 0.4, 0.2)
        for i in range(count // 3):
            if i % 10 == 0:
                v = c06.thin(r, t, vs[i % len(vs)], 0.4, 0.2)
                o = c06.make(n, v, r.randrange(3))
            try:
                encode(asn1Spec=o)
            except Exception as e:
                if not runner.from_library(e):
                    raise
                obs.event('failed operations')
    elif op == 'flood build':
        for i in range(count // 3):
            o = n.make(vs[i % len(vs)], i % 3)
        if observe.value(n, o) != ir.complete(t, vs[i % len(vs)]):
            return 'value: message number %d reads %r' % (i, observe.value(n, o))
    else:
        o = n.make(vs[vi])
        ps = [p for p in paths.places(t, vs[vi]) if p[0]]
        for i in range(count // 3):
            if not ps:
                break
            try:
                paths.put(o, r.choice(ps)[0], object())
            except Exception as e:
                if not runner.from_library(e):
                    raise
                obs.event('failed operations')
        if observe.value(n, o) != ir.complete(t, vs[vi]):
            return 'value: after failed assignments the message reads %r' % (observe.value(n, o),)


def present(t, v):
    from checks import c10
    return c10.sent(t, v)


def scribble(d):
    """What to_dict returned belongs to the caller."""
    if isinstance(d, dict):
        for k in list(d):
            scribble(d[k])
            d[k] = None
        d['scribble'] = 1
    elif isinstance(d, list):
        for x in d:
            scribble(x)
        d.append('scribble')


def shrink(case):
    ops = case['ops']
    n = len(ops)
    for size in (n // 2, n // 4, 2, 1):
        if size:
            for i in range(0, n, size):
                yield dict(case, ops=ops[:i] + ops[i + size:])
