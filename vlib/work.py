"""Workloads of the codec checks: (type, value) cases."""
from . import gen, ir, ref, runner, shrinkir

OFFS = range(8)
RANGES = [1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000,
          4096, 32767, 32768, 65535, 65536, 65537, 65538, 1 << 17, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 1 << 31,
          (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 56) + 5, (1 << 63) + 1, 1 << 64, (1 << 64) + 1,
          1 << 127, 1 << 128]
LBS = [0, 1, -1, 5, -128, -129, 127, 128, 255, 256, 1000, -32768, 65535, -65536, 1 << 31, -(1 << 31), -(1 << 63), 1 << 63]
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 254,
         255, 256, 257, 258, 300]
UBS = SIZES + [1000, 16383, 16384, 65534, 65535, 65536, 65537, 70000, 1 << 20]
COUNTS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 254, 255, 256, 257, 258, 300]


def context(tier):
    return {'extra': sorted(x for x in gen.harvest(runner.REPO) if x < 1 << 66)}


def wrap(r, g, t, v):
    """Put (t, v) behind a random number of bits and in front of something that shows misalignment."""
    c = r.random()
    if c < 0.15:
        return t, v
    n = r.choice(list(OFFS))
    pre = [{'n': 'p%d' % i, 't': {'k': 'bool'}, 'o': 'm'} for i in range(n)]
    post = {'n': 'z', 't': {'k': 'int', 'lb': 0, 'ub': r.choice((5, 255, 1000)), 'ext': False}, 'o': 'm'}
    o = r.choice(('m', 'm', 'o', 'd')) if t['k'] in ('bool', 'int', 'enum', 'bits', 'octs') else r.choice(('m', 'm', 'o'))
    f = {'n': 'x-v', 't': t, 'o': o}
    if o == 'd':
        f['d'] = g.value(t)
        if not gen.printable(f['d']):
            f = {'n': 'x-v', 't': t, 'o': 'm'}
    seq = {'k': 'seq', 'root': pre + [f, post], 'ext': False, 'adds': [], 'groups': []}
    val = {'p%d' % i: r.random() < 0.5 for i in range(n)}
    val['x-v'] = v
    val['z'] = r.choice((0, 1, 5))
    if c < 0.35:     # as an extension addition
        seq.update(root=pre or [post], ext=True, adds=[f] + ([post] if pre else []))
        if not pre:
            val = {'x-v': v, 'z': val['z']}
    elif c < 0.45:   # in a group
        seq.update(root=pre or [post], ext=True, groups=[[f] + ([post] if pre else [])])
        if not pre:
            val = {'x-v': v, 'z': val['z']}
    elif c < 0.6:    # twice in a list
        return ({'k': 'seqof', 'elem': seq, 'lb': None, 'ub': None, 'ext': False}, [val, dict(val, z=1)])
    elif c < 0.75:   # in a choice
        ch = {'k': 'choice', 'root': [{'n': 'o%d' % i, 't': {'k': 'bool'}} for i in range(r.choice((1, 2, 4)))] +
              [{'n': 'it', 't': seq}], 'ext': r.random() < 0.5, 'adds': [], 'groups': []}
        return ch, ('it', val)
    return seq, val


def sweep(r, g):
    """One type at one of its boundaries, at some bit offset."""
    what = r.choice(('int', 'int', 'bits', 'octs', 'seqof', 'enum', 'choice', 'opt', 'adds', 'uint', 'small'))
    if what == 'int':
        lb = r.choice(LBS)
        rng = r.choice(RANGES)
        t = {'k': 'int', 'lb': lb, 'ub': lb + rng - 1, 'ext': r.random() < 0.3}
        d = r.choice((0, 1, rng // 2, rng - 2, rng - 1, 255, 256, 65535, 65536, r.randrange(rng)))
        v = lb + min(max(d, 0), rng - 1)
        if t['ext'] and r.random() < 0.3:
            v = r.choice((lb - 1, lb + rng, lb - rng, g.signed()))
    elif what == 'uint':
        t = {'k': 'int', 'lb': r.choice((None, None, r.choice(LBS))), 'ub': None, 'ext': False}
        if t['lb'] is None and r.random() < 0.5:
            t['ub'] = r.choice(LBS)
        if r.random() < 0.2 and (t['lb'] is not None or t['ub'] is not None):
            t['ext'] = True
        n = r.choice((1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 39, 40, 47, 48, 55, 56, 57, 63, 64, 65, 127, 128,
                      1008, 1015, 1016, 1017, 1023, 1024, 1025, 2048))
        m = (1 << n) + r.choice((-2, -1, 0, 1))
        if t['lb'] is not None:
            v = t['lb'] + m
        elif t['ub'] is not None:
            v = t['ub'] - m
        else:
            v = r.choice((m, -m, -m - 1))
        if t['ext'] and r.random() < 0.4:
            v = t['lb'] - r.choice((1, m)) if t['lb'] is not None else t['ub'] + r.choice((1, m))
    elif what == 'small':
        lb = r.choice((0, 0, -3, 10))
        ub = lb + r.randrange(0, 12)
        t = {'k': 'int', 'lb': lb, 'ub': ub, 'ext': r.random() < 0.3}
        v = r.randrange(lb, ub + 1)
    elif what in ('bits', 'octs', 'seqof'):
        ext = r.random() < 0.3
        c = r.random()
        if c < 0.15:
            lb, ub, ext = None, None, False
        elif c < 0.25:
            lb, ub, ext = r.choice(SIZES), None, r.random() < 0.2
        elif c < 0.5:
            lb = ub = r.choice(SIZES)
        else:
            lb = r.choice(SIZES)
            ub = r.choice([x for x in UBS if x >= lb])
        t = {'k': what, 'lb': lb, 'ub': ub, 'ext': ext}
        lo, hi = lb or 0, ub if ub is not None else (lb or 0) + 400
        n = min(r.choice([lo, lo + 1, lo + 2, hi, hi - 1] + [x for x in SIZES if lo <= x <= hi] * 2), hi)
        n = max(n, lo)
        if n > 420 and r.random() < 0.95:
            n = max(lo, r.choice(SIZES))
        if n > 3000:
            n = max(lo, 300)
        if ext and r.random() < 0.35:
            n = r.choice([x for x in SIZES if not ir.in_root(t, x)] or [n])
        if what == 'bits':
            v = g.bits(n)
        elif what == 'octs':
            v = g.octets(n)
        else:
            t['elem'] = r.choice((g.t_bool, g.t_int, g.t_enum, g.t_bits, g.t_octs))() if n < 70 else \
                r.choice(({'k': 'bool'}, {'k': 'int', 'lb': 0, 'ub': 255, 'ext': False}, {'k': 'int', 'lb': 0, 'ub': 6, 'ext': False}))
            v = [g.value(t['elem']) for _ in range(n)]
    elif what == 'enum':
        n = r.choice(COUNTS)
        ext = r.random() < 0.5
        m = r.choice([0] + COUNTS) if ext else 0
        ns = gen.items(r, n + m)
        t = {'k': 'enum', 'root': ns[:n], 'ext': ext, 'adds': ns[n:]}
        v = ns[r.choice([0, n - 1, n // 2, n + m - 1, min(n, n + m - 1), r.randrange(n + m), n + min(max(m - 1, 0), r.choice((0, 62, 63, 64, 65, 127, 128, 255, 256)))])
               if m else r.choice([0, n - 1, r.randrange(n)])]
    elif what == 'choice':
        n = r.choice(COUNTS)
        ext = r.random() < 0.5
        m = r.choice((0, 1, 2, 3, 62, 63, 64, 65, 66, 127, 128, 129, 256, 257)) if ext else 0
        k = r.choice((0, 1, 2, 5)) if ext else 0
        al = [{'n': 'a%d' % i, 't': {'k': 'bool'}} for i in range(n + m + k)]
        i = r.choice([0, n - 1, r.randrange(n), r.randrange(n + m + k), n + m + k - 1, min(n, n + m + k - 1),
                      min(n + m + k - 1, n + r.choice((62, 63, 64, 127, 128, 255, 256)))])
        al[i]['t'] = g.t_simple() if r.random() < 0.8 else g.type(1)
        t = {'k': 'choice', 'root': al[:n], 'ext': ext, 'adds': al[n:n + m],
             'groups': [al[n + m:n + m + k // 2 + 1], al[n + m + k // 2 + 1:]] if k > 1 else ([al[n + m:]] if k else [])}
        t['groups'] = [x for x in t['groups'] if x]
        v = (al[i]['n'], g.value(al[i]['t']))
    elif what == 'opt':
        n = r.choice((1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 129))
        fs = []
        v = {}
        for i in range(n):
            o = r.choice('od')
            f = {'n': 'f%d' % i, 't': r.choice((g.t_bool, g.t_int))(), 'o': o}
            if o == 'd':
                f['d'] = g.value(f['t'])
            if r.random() < 0.5:
                v[f['n']] = g.value(f['t'])
            elif o == 'd' and r.random() < 0.5:
                v[f['n']] = f['d']
            fs.append(f)
        t = {'k': 'seq', 'root': fs, 'ext': r.random() < 0.4, 'adds': [], 'groups': []}
    else:
        n = r.choice((1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 62, 63, 64))
        k = r.choice((0, 0, 1, 2, 3))
        n = max(0, n - k) if n + k > 64 else n
        adds = [{'n': 'x%d' % i, 't': r.choice((g.t_bool, g.t_int, g.t_octs))(), 'o': 'o'} for i in range(n)]
        groups = [[{'n': 'g%d%d' % (j, i), 't': r.choice((g.t_bool, g.t_int))(), 'o': 'o'}
                   for i in range(r.choice((1, 2, 3)))] for j in range(k)]
        root = [g.field(1) for _ in range(r.choice((0, 1, 2)))]
        t = {'k': 'seq', 'root': root, 'ext': True, 'adds': adds, 'groups': groups}
        v = g.value(dict(t, adds=[], groups=[]))
        pr = r.choice((0.05, 0.3, 0.9))
        for f in ir.ext_alts(t):
            if r.random() < pr:
                v[f['n']] = g.value(f['t'])
    if r.random() < 0.75:
        t, v = wrap(r, g, t, v)
    return t, v


def long(r, g):
    """Long strings and lists: both forms of the length, up to the last one below fragmentation."""
    n = r.choice((126, 127, 128, 129, 255, 256, 1000, 4095, 4096, 8191, 8192, 16382, 16383))
    k = r.choice(('bits', 'octs', 'seqof', 'int', 'open'))
    if k == 'int':
        t = {'k': 'int', 'lb': r.choice((None, 0)), 'ub': None, 'ext': False}
        n = min(n, 300)
        v = (1 << (8 * n)) - r.choice((1, 2))
        if r.random() < 0.5:
            v >>= 1
    elif k == 'open':
        n = min(n, 1000)
        t = {'k': 'seq', 'root': [{'n': 'a', 't': {'k': 'bool'}, 'o': 'm'}], 'ext': True,
             'adds': [{'n': 'b', 't': {'k': 'octs', 'lb': None, 'ub': None, 'ext': False}, 'o': 'o'}], 'groups': []}
        v = {'a': True, 'b': g.octets(max(0, n - r.choice((0, 1, 2, 3))))}
    else:
        lb, ub, ext = r.choice(((None, None, False), (0, 65535, False), (0, 65536, False), (n, n, False), (1, n, True),
                                (1, 3, True), (0, 1 << 20, False)))
        if k == 'seqof':
            n = min(n, 600)
            if lb == ub:
                lb = ub = n if lb is not None else None
        t = {'k': k, 'lb': lb, 'ub': ub, 'ext': ext}
        if k == 'seqof':
            t['elem'] = {'k': 'bool'}
            v = [r.random() < 0.5 for _ in range(n)]
            if t['lb'] == t['ub'] and lb is not None:
                t['lb'] = t['ub'] = n
        elif k == 'bits':
            v = g.bits(n)
        else:
            n = min(n, 2000) if r.random() < 0.7 else n
            v = g.octets(n)
            if lb is not None and lb == ub:
                t['lb'] = t['ub'] = n
            elif t['ext'] and ub != 3:
                t['ub'] = max(1, n)
    if not ir.valid(t, v):
        t = dict(t, lb=None, ub=None, ext=False)
    if r.random() < 0.5 and k != 'open':
        t, v = wrap(r, g, t, v)
    return t, v


def make(kind, r, ctx):
    extra = ctx.get('extra', ())
    if kind == 'flat':
        g = gen.G(r, extra, depth=1)
        t = g.type()
        v = g.value(t)
    elif kind == 'deep':
        g = gen.G(r, extra, depth=r.choice((2, 2, 3, 4)), max_len=20)
        t = g.type()
        v = g.value(t)
    elif kind == 'sweep':
        g = gen.G(r, extra, depth=1)
        t, v = sweep(r, g)
    elif kind == 'long':
        g = gen.G(r, extra, depth=1)
        t, v = long(r, g)
    else:
        raise AssertionError(kind)
    return {'t': t, 'v': v, 'how': r.randrange(3), 'share': r.random() < 0.5}


def shrink(case):
    for t, v in shrinkir.shrink(case['t'], case['v']):
        if ir.valid(t, v) and ir.complete_message(t, v) is True:
            yield dict(case, t=t, v=v)
    if case.get('share'):
        yield dict(case, share=False)
    if case.get('how'):
        yield dict(case, how=0)


def keys(obs, t, v):
    for f in features(t, v):
        obs.state('codec decisions', f)


def features(t, v):
    """Which codec decisions a case exercises: the states the monitors report."""
    out = set()

    def go(t, v, where):
        k = t['k']
        if k == 'int':
            if t['lb'] is None or t['ub'] is None:
                c = 'semi' if t['lb'] is not None else 'unb'
            else:
                n = t['ub'] - t['lb'] + 1
                c = '1' if n == 1 else 'bits%d' % (n - 1).bit_length() if n < 256 else '256' if n == 256 else \
                    '64K' if n <= 65536 else 'len%d' % ((n - 1).bit_length() // 8)
            out.add(('int', c, t['ext'], ir.in_root(t, v), where))
        elif k in ('bits', 'octs', 'seqof'):
            n = len(v)
            f = 'none' if t['lb'] is None and t['ub'] is None else 'fixed' if t['lb'] == t['ub'] else \
                'semi' if t['ub'] is None else 'big' if t['ub'] >= 65536 else 'range'
            out.add((k, f, t['ext'], ir.in_root(t, n), 0 if n == 0 else 1 if n <= 2 else 2 if n <= 16 else 3 if n < 128 else 4, where))
            if k == 'seqof':
                for x in v[:6]:
                    go(t['elem'], x, 'list')
        elif k == 'enum':
            out.add(('enum', len(t['root']).bit_length(), t['ext'], v in t['root'], where))
        elif k == 'choice':
            part = 'root' if v[0] in [a['n'] for a in t['root']] else 'adds' if v[0] in [a['n'] for a in t['adds']] else 'group'
            out.add(('choice', len(t['root']).bit_length(), t['ext'], part, where))
            for a in ir.alts(t):
                if a['n'] == v[0]:
                    go(a['t'], v[1], 'open' if part != 'root' else 'alt')
        elif k == 'seq':
            out.add(('seq', t['ext'], bool(t['adds']), len(t['groups']), any(f['n'] in v for f in ir.ext_alts(t)), where))
            for part, fs in [('root', t['root']), ('open', t['adds'])] + [('group', g) for g in t['groups']]:
                for f in fs:
                    out.add(('field', f['o'], f['n'] in v, part))
                    if f['n'] in v:
                        go(f['t'], v[f['n']], part)
        else:
            out.add(('bool', v, where))
    go(t, v, 'top')
    return out


def expected(t, v, **opts):
    """Reference bytes or None when the value is beyond what the library supports."""
    try:
        return ref.encode(t, v, **opts)
    except ref.Unsupported:
        return None
