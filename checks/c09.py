"""C09 Concurrent encode and decode behave like sequential ones."""
import os
import random
import pyasn1
from asn1PERser import encode, decode
from vlib import build, gen, ir, observe, runner, sched, work
from checks import c07, c10

ID = 'C09'
RULE = ('seeded programs of 2-5 threads that build, encode, decode (shared type object, shared or own bytes, valid or damaged) and convert '
        'messages of 1-3 fresh schemas; the scheduler hands over between the threads at seeded lines or byte code instructions of the '
        'library and of pyasn1 (also free-running with a 1 us switch interval); every result is compared with the model (encode, decode, '
        'to_dict) or the sequential run on separate classes (damaged input); a case is one program with one schedule')
PLAN = {'quick': {'line': 900, 'instr': 700, 'few': 900, 'free': 250}, 'thorough': {'line': 14000, 'instr': 11000, 'few': 14000, 'free': 3000}}
CHUNK = 25
NEED = {'operations in threads': 15000, 'hand-overs': 50000}
ASSUMPTIONS = ['CPython with the GIL: code runs in byte code steps, as on the interpreter this sandbox has',
               'a message object belongs to one thread; classes, type objects, DEFAULT values and byte strings are shared']
context = work.context
PYASN1 = os.path.dirname(pyasn1.__file__) + os.sep


def generate(kind, r, ctx):
    nt = r.choice((1, 1, 1, 2, 3))
    types, values, damaged = [], [], []
    for _ in range(nt):
        g = gen.G(r, ctx.get('extra', ()), depth=r.choice((1, 2, 2, 3)), max_len=20)
        for _ in range(20):
            if r.random() < 0.35:
                t, _v = work.sweep(r, g)
            else:
                t = g.type()
            vs = [g.value(t) for _ in range(r.choice((2, 3)))]
            if all(work.expected(t, v) is not None and len(work.expected(t, v)) < 300 for v in vs) and sum(1 for _ in ir.walk(t)) < 60:
                break
        else:
            continue
        ds = []
        for v in vs[:2]:
            s = bytearray(work.expected(t, v))
            i = r.randrange(8 * len(s))
            s[i // 8] ^= 0x80 >> (i % 8)
            ds.append(bytes(s[:r.randrange(len(s)) + 1]) if r.random() < 0.5 else bytes(s))
        types.append(t), values.append(vs), damaged.append(ds)
    if not types:
        return None
    n = r.choice((2, 2, 3, 4, 5))
    ops = []
    same = r.random() < 0.4
    for i in range(n):
        if same and i:
            ops.append(list(ops[0]))
            continue
        ops.append([[r.choice(('enc', 'enc', 'dec', 'dec', 'dec', 'dict', 'bad', 'both', 'str')), r.randrange(len(types)), r.randrange(6), r.randrange(6)]
                    for _ in range(r.choice((2, 3, 4, 6)))])
    sw = {'line': r.choice((0.02, 0.1, 0.3, 0.6)), 'instr': r.choice((0.005, 0.03, 0.1)), 'free': 0}.get(kind)
    if kind == 'few':
        sw = sorted(r.randrange(1, 1500) for _ in range(r.choice((1, 2, 3, 5, 8, 20))))
    return {'types': types, 'values': values, 'damaged': damaged, 'ops': ops, 'switch': sw, 'seed': r.getrandbits(32), 'mode': 'line' if kind == 'few' else kind}


def outcome(n, spec, x):
    try:
        d = decode(per_stream=x, asn1Spec=spec)
    except Exception as e:
        if not runner.from_library(e):
            raise
        return ('raised', type(e).__name__)
    return ('value', observe.peek(n, d))


def plain(x):
    """peek without class names (the sequential run has its own classes)."""
    if isinstance(x, tuple) and x and isinstance(x[0], str) and len(x) > 1 and isinstance(x[1], bool):
        return tuple(plain(y) for y in x[1:])
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    return x


def run(case, obs):
    ts, vals = case['types'], case['values']
    memo = {}
    alone = [build.build(t) for t in ts]
    bad = [[outcome(n, n.cls(), x) for x in xs] for n, xs in zip(alone, case['damaged'])]
    ns = [build.build(t, None, memo) for t in ts]
    specs = [n.cls() for n in ns]
    streams = [[work.expected(t, v) for v in vs] for t, vs in zip(ts, vals)]
    shared = [[bytes(s) if i % 2 else bytearray(s) for i, s in enumerate(ss)] for ss in streams]

    def program(ops):
        out = []
        for op, a, b, c in ops:
            n, t = ns[a], ts[a]
            vi = b % len(vals[a])
            v = vals[a][vi]
            try:
                if op == 'enc':
                    out.append(bytes(encode(asn1Spec=n.make(v, c % 3))))
                elif op == 'dec':
                    d = decode(per_stream=shared[a][vi], asn1Spec=specs[a] if c % 3 else n.cls())
                    out.append(observe.value(n, d))
                elif op == 'both':
                    d = decode(per_stream=shared[a][vi], asn1Spec=specs[a])
                    out.append((bytes(encode(asn1Spec=d)), observe.value(n, d)))
                elif op == 'dict':
                    out.append(n.make(v, c % 3).to_dict())
                elif op == 'str':
                    out.append(str(n.make(v, c % 3)))
                else:
                    out.append(outcome(n, specs[a], case['damaged'][a][b % len(case['damaged'][a])]))
            except Exception as e:
                out.append(e)
        return out

    s = sched.Sched(random.Random(case['seed']), case['mode'], case['switch'], (PYASN1,))
    res = s.run([lambda ops=ops: program(ops) for ops in case['ops']])
    for i, (ops, got) in enumerate(zip(case['ops'], res)):
        if isinstance(got, BaseException):
            raise got
        for (op, a, b, c), x in zip(ops, got):
            vi = b % len(vals[a])
            t, v, n = ts[a], vals[a][vi], ns[a]
            want = None
            if op == 'enc':
                want = streams[a][vi]
            elif op == 'dec':
                want = ir.complete(t, v)
            elif op == 'both':
                want = (streams[a][vi], ir.complete(t, v))
            elif op == 'dict':
                want = observe.as_dict(t, v)
            elif op == 'str':
                want = observe.as_text(n, v).strip('\n')
                if not isinstance(x, Exception):
                    x = x.strip('\n')
                    if t['k'] in ('octs', 'bits'):
                        want = x
            else:
                want = bad[a][b % len(case['damaged'][a])]
                if not isinstance(x, Exception):
                    x, want = (x[0], plain(x[1])), (want[0], plain(want[1]))
            if isinstance(x, Exception):
                if not runner.from_library(x):
                    raise x
                return 'exception: thread %d, %s: %s: %s (schedule %s)' % (i, op, type(x).__name__, str(x)[:300], s.trace[:8])
            if x != want:
                return 'mixed: thread %d, %s gives %s, alone it gives %s (schedule %s)' % (i, op, repr(x)[:500], repr(want)[:500], s.trace[:8])
            obs.event('operations in threads')
            obs.event('op ' + op)
    for t, vs, ss in zip(ts, streams, shared):
        if [bytes(x) for x in ss] != vs:
            return 'changed: shared byte string'
    obs.event('hand-overs', s.handovers)
    obs.event('scheduling points', s.steps)
    if s.stuck:
        obs.event('schedules given up at a lock')
    obs.state('interleavings', case['mode'], [x[:4] for x in s.trace])
    for x in s.trace[:400]:
        obs.state('preempted at', x[2], x[3])


def shrink(case):
    ops = case['ops']
    if len(ops) > 2:
        for i in range(len(ops)):
            yield dict(case, ops=ops[:i] + ops[i + 1:])
    for i in range(len(ops)):
        if len(ops[i]) > 1:
            for j in range(len(ops[i])):
                yield dict(case, ops=ops[:i] + [ops[i][:j] + ops[i][j + 1:]] + ops[i + 1:])
