"""Reference ALIGNED PER codec, written from ITU-T X.691 (clause numbers of the 2015 edition).

Independent of asn1PERser: works on the IR of ir.py and on strings of '0'/'1'.
`encode` takes options to build messages a conforming *other* sender may produce.
"""
import zlib
from . import ir


class RefError(Exception):
    """Malformed or truncated input for this type."""


class Unsupported(Exception):
    """Needs fragmentation (16K and more) or > 64 extension additions."""


class Open(Exception):
    """Not a conforming encoding, but X.691 leaves receivers free in what to make of it: not judged."""


class W(object):
    def __init__(self, opts=None):
        self.parts = []
        self.n = 0
        # fragments=True: emit what X.691 prescribes beyond the limits of the library (C14 feeds it to decode)
        self.frag = bool(opts and opts.get('fragments'))

    def bits(self, s):
        self.parts.append(s)
        self.n += len(s)

    def num(self, v, width):
        if width:
            s = format(v, '0%db' % width)
            assert len(s) == width, (v, width)
            self.bits(s)

    def align(self):
        if self.n % 8:
            self.bits('0' * (8 - self.n % 8))

    def text(self):
        return ''.join(self.parts)


def nbits(rng):
    return (rng - 1).bit_length()


def octets_of(v):
    return max(1, (v.bit_length() + 7) // 8)


def twos_octets(v):
    return ((v if v >= 0 else -v - 1).bit_length() + 8) // 8


def w_constrained(w, v, lb, ub):                     # 11.5, ranges up to 64K
    rng = ub - lb + 1
    assert lb <= v <= ub and rng <= 65536
    if rng == 1:
        return
    if rng <= 255:
        w.num(v - lb, nbits(rng))
    elif rng == 256:
        w.align()
        w.num(v - lb, 8)
    else:
        w.align()
        w.num(v - lb, 16)


def w_length(w, n):                                  # 11.9.3.5 - 11.9.3.8
    w.align()
    if n < 128:
        w.num(n, 8)
    elif n < 16384:
        w.bits('10')
        w.num(n, 14)
    else:
        raise Unsupported('length %d needs fragmentation' % n)


def w_units(w, n, put):                              # 11.9.3.5 - 11.9.3.8 with the units themselves
    if n < 16384 or not w.frag:
        w_length(w, n)
        put(0, n)
        return
    i = 0
    while n - i >= 16384:
        m = min(4, (n - i) // 16384)
        w.align()
        w.bits('11')
        w.num(m, 6)
        put(i, i + m * 16384)
        i += m * 16384
    w_length(w, n - i)
    put(i, n)


def w_small(w, n):                                   # 11.6
    if n <= 63:
        w.bits('0')
        w.num(n, 6)
    else:
        w.bits('1')
        w_length(w, octets_of(n))
        w.num(n, 8 * octets_of(n))


def w_small_length(w, n):                            # 11.9.3.4
    if n <= 64:
        w.bits('0')
        w.num(n - 1, 6)
    elif w.frag:
        w.bits('1')
        w_length(w, n)
    else:
        raise Unsupported('more than 64 extension additions')


def w_unconstrained_int(w, v):                       # 11.8, 13.2.4
    n = twos_octets(v)
    w_octets(w, v & ((1 << (8 * n)) - 1), n)


def w_octets(w, v, n):
    s = format(v, '0%db' % (8 * n))
    w_units(w, n, lambda i, j: w.bits(s[8 * i:8 * j]))


def w_root_int(w, t, v):                             # 13.2
    lb, ub = t['lb'], t['ub']
    if lb is None:
        w_unconstrained_int(w, v)
    elif ub is None:
        w_octets(w, v - lb, octets_of(v - lb))
    elif ub - lb + 1 <= 65536:
        w_constrained(w, v, lb, ub)
    else:                                            # 13.2.6 a)
        n = octets_of(v - lb)
        w_constrained(w, n, 1, octets_of(ub - lb))
        w.align()
        w.num(v - lb, 8 * n)


def w_sized(w, t, n, payload, unaligned_upto, always_pad=False):
    """Length determinant + payload for BIT STRING (16) / OCTET STRING (17) / SEQUENCE OF (20)."""
    lb, ub = t['lb'], t['ub']
    if t['ext']:
        if not ir.in_root(t, n):
            w.bits('1')
            w_units(w, n, lambda i, j: payload(False, i, j))
            return
        w.bits('0')
    if ub is not None and ub >= 65536:               # 11.9.4.1 / 3.18
        ub = None
        if lb == t['ub'] and not w.frag:
            raise Unsupported('fixed size >= 64K')
    if ub is not None and lb == ub:
        if n:
            payload(ub > unaligned_upto, 0, n)
        return
    if ub is not None:
        w_constrained(w, n, lb or 0, ub)
        if n:                                        # 11.9.3.3: no further addition when n is 0
            payload(True, 0, n)
    else:
        w_units(w, n, lambda i, j: payload(False, i, j))


def w_open(w, t, v, opts):                           # 11.2
    s = complete_bits(t, v, opts)
    w_units(w, len(s) // 8, lambda i, j: w.bits(s[8 * i:8 * j]))


def w_seq_body(w, fields, v, opts):                  # 19.2 - 19.6
    pre = []
    flags = ''
    for f in fields:
        if f['o'] == 'm':
            pre.append(f)
        elif f['o'] == 'o':
            p = f['n'] in v
            flags += '1' if p else '0'
            if p:
                pre.append(f)
        else:
            p = sent(f, v, opts)
            flags += '1' if p else '0'
            if p:
                pre.append(f)
    w.bits(flags)
    for f in pre:
        w_type(w, f['t'], v[f['n']], opts)


def sent(f, v, opts):
    """A DEFAULT component with its default value is not sent (19.5), unless the sender chooses to."""
    if f['n'] not in v:
        return False
    if f['o'] != 'd' or v[f['n']] != f['d']:
        return True
    choice = opts.get('send_defaults')
    if isinstance(choice, str):         # some are, some are not
        return zlib.crc32((choice + f['n']).encode()) % 2 == 1
    return bool(choice)


def group_present(g, v, opts):
    if opts.get('send_groups') and any(f['o'] == 'd' for f in g) and not any(f['o'] == 'm' for f in g):
        return True         # its DEFAULT components have a value, though 19.5 leaves nothing of them to send
    return any(sent(f, v, opts) for f in g)


def w_seq(w, t, v, opts):                            # 19
    flags = ''
    if t['ext']:
        flags = ''.join('1' if sent(f, v, opts) else '0' for f in t['adds'])
        flags += ''.join('1' if group_present(g, v, opts) else '0' for g in t['groups'])
        w.bits('1' if '1' in flags else '0')
    w_seq_body(w, t['root'], v, opts)
    if '1' in flags:
        w_small_length(w, len(flags))
        w.bits(flags)
        for f in t['adds']:
            if sent(f, v, opts):
                w_open(w, f['t'], v[f['n']], opts)
        for g in t['groups']:
            if group_present(g, v, opts):
                w_open(w, {'k': 'seq', 'root': g, 'ext': False, 'adds': [], 'groups': []},
                       {f['n']: v[f['n']] for f in g if f['n'] in v}, opts)


def w_choice(w, t, v, opts):                         # 23
    name, val = v
    names = [a['n'] for a in t['root']]
    if name in names:
        i = names.index(name)
        if t['ext']:
            w.bits('0')
        w_constrained(w, i, 0, len(names) - 1)
        w_type(w, t['root'][i]['t'], val, opts)
        return
    ext = ir.ext_alts(t)
    i = [a['n'] for a in ext].index(name)
    w.bits('1')
    w_small(w, i)
    w_open(w, ext[i]['t'], val, opts)


def w_type(w, t, v, opts):
    k = t['k']
    if k == 'bool':                                  # 12
        w.bits('1' if v else '0')
    elif k == 'int':                                 # 13
        if t['ext']:
            if ir.in_root(t, v):
                w.bits('0')
            else:
                w.bits('1')
                w_unconstrained_int(w, v)
                return
        w_root_int(w, t, v)
    elif k == 'enum':                                # 14
        if v in t['root']:
            if t['ext']:
                w.bits('0')
            w_constrained(w, t['root'].index(v), 0, len(t['root']) - 1)
        else:
            w.bits('1')
            w_small(w, t['adds'].index(v))
    elif k == 'bits':                                # 16
        def payload(al, i, j):
            if al:
                w.align()
            w.bits(v[i:j])
        w_sized(w, t, len(v), payload, 16)
    elif k == 'octs':                                # 17
        def payload(al, i, j):
            if al:
                w.align()
            for b in v[i:j]:
                w.num(b, 8)
        w_sized(w, t, len(v), payload, 2)
    elif k == 'seqof':                               # 20
        def payload(al, i, j):
            for x in v[i:j]:
                w_type(w, t['elem'], x, opts)
        w_sized(w, t, len(v), payload, 1 << 60)
    elif k == 'seq':
        w_seq(w, t, v, opts)
    elif k == 'choice':
        w_choice(w, t, v, opts)
    else:
        raise AssertionError(k)


def complete_bits(t, v, opts):                       # 11.1
    w = W(opts)
    w_type(w, t, v, opts)
    w.align()
    s = w.text()
    return s or '0' * 8


def bits_to_bytes(s):
    return int(s, 2).to_bytes(len(s) // 8, 'big')


def encode(t, v, **opts):
    return bits_to_bytes(complete_bits(t, v, opts))


def bit_length(t, v, **opts):
    """Bits before the final padding."""
    w = W()
    w_type(w, t, v, opts)
    return w.n


# ------------------------------------------------------------------ decoder

class R(object):
    def __init__(self, data):
        self.s = bin(int.from_bytes(b'\x01' + data, 'big'))[3:]
        self.p = 0

    def bits(self, n):
        if self.p + n > len(self.s):
            raise RefError('truncated')
        out = self.s[self.p:self.p + n]
        self.p += n
        return out

    def num(self, n):
        return int(self.bits(n), 2) if n else 0

    def align(self):
        if self.p % 8:
            self.p += 8 - self.p % 8


def r_constrained(r, lb, ub):
    rng = ub - lb + 1
    if rng == 1:
        return lb
    if rng <= 255:
        v = lb + r.num(nbits(rng))
    elif rng == 256:
        r.align()
        v = lb + r.num(8)
    else:
        r.align()
        v = lb + r.num(16)
    if v > ub:
        raise RefError('constrained number out of range')
    return v


def r_length(r):
    r.align()
    if r.bits(1) == '0':
        return r.num(7)
    if r.bits(1) == '0':
        return r.num(14)
    raise Unsupported('fragmented')


def r_small(r):
    if r.bits(1) == '0':
        return r.num(6)
    n = r_length(r)
    if n == 0:
        raise RefError('number of length 0')
    return r.num(8 * n)


def r_small_length(r):
    if r.bits(1) == '0':
        return r.num(6) + 1
    raise Unsupported('more than 64 extension additions')


def r_unconstrained_int(r):
    n = r_length(r)
    if n == 0:
        raise RefError('integer of length 0')
    v = r.num(8 * n)
    if v >> (8 * n - 1):
        v -= 1 << (8 * n)
    return v


def r_int(r, t):
    if t['ext'] and r.bits(1) == '1':
        return r_unconstrained_int(r)
    lb, ub = t['lb'], t['ub']
    if lb is None:
        v = r_unconstrained_int(r)
    elif ub is None:
        n = r_length(r)
        if n == 0:
            raise RefError('integer of length 0')
        v = lb + r.num(8 * n)
    elif ub - lb + 1 <= 65536:
        v = r_constrained(r, lb, ub)
    else:
        n = r_constrained(r, 1, octets_of(ub - lb))
        r.align()
        v = lb + r.num(8 * n)
    if ub is not None and v > ub:
        raise RefError('integer out of range')
    return v


def r_sized(r, t, payload, unaligned_upto):
    lb, ub = t['lb'], t['ub']
    if t['ext'] and r.bits(1) == '1':
        return payload(r_length(r), False)
    if ub is not None and ub >= 65536:
        if lb == ub:
            raise Unsupported('fixed size >= 64K')
        ub = None
    if ub is not None and lb == ub:
        return payload(ub, ub > unaligned_upto)
    if ub is not None:
        n = r_constrained(r, lb or 0, ub)
        return payload(n, n > 0)
    n = r_length(r)
    if not ir.in_root(t, n):
        raise RefError('size out of range')
    return payload(n, False)


def r_open(r, t):
    n = r_length(r)
    s = r.bits(8 * n)
    if t is None:
        return None
    if n == 0:                                       # 11.1.3
        raise RefError('open type of 0 octets')
    sub = R(b'')
    sub.s = s
    return r_type(sub, t)


def r_seq_body(r, fields):
    opt = [f for f in fields if f['o'] != 'm']
    flags = r.bits(len(opt))
    here = {f['n']: b == '1' for f, b in zip(opt, flags)}
    v = {}
    for f in fields:
        if here.get(f['n'], True):
            v[f['n']] = r_type(r, f['t'])
    return v


def r_seq(r, t):
    ext = t['ext'] and r.bits(1) == '1'
    v = r_seq_body(r, t['root'])
    if ext:
        n = r_small_length(r)
        flags = r.bits(n)
        if '1' not in flags:                         # 19.1: the bit is 1 only if additions are present
            raise Open('extension bit set, but no addition present')
        known = [('f', f) for f in t['adds']] + [('g', g) for g in t['groups']]
        for i, b in enumerate(flags):
            if b == '0':
                continue
            if i >= len(known):
                r_open(r, None)
            elif known[i][0] == 'f':
                f = known[i][1]
                v[f['n']] = r_open(r, f['t'])
            else:
                v.update(r_open(r, {'k': 'seq', 'root': known[i][1], 'ext': False, 'adds': [], 'groups': []}))
    return v


def r_type(r, t):
    k = t['k']
    if k == 'bool':
        return r.bits(1) == '1'
    if k == 'int':
        return r_int(r, t)
    if k == 'enum':
        if t['ext'] and r.bits(1) == '1':
            i = r_small(r)
            if i >= len(t['adds']):
                raise RefError('unknown enumeration')
            return t['adds'][i]
        return t['root'][r_constrained(r, 0, len(t['root']) - 1)]
    if k == 'bits':
        def payload(n, al):
            if al:
                r.align()
            return r.bits(n)
        return r_sized(r, t, payload, 16)
    if k == 'octs':
        def payload(n, al):
            if al:
                r.align()
            s = r.bits(8 * n)
            return int('1' + s, 2).to_bytes(n + 1, 'big')[1:] if n else b''
        return r_sized(r, t, payload, 2)
    if k == 'seqof':
        def payload(n, al):
            return [r_type(r, t['elem']) for _ in range(n)]
        return r_sized(r, t, payload, 1 << 60)
    if k == 'seq':
        return r_seq(r, t)
    if k == 'choice':
        if t['ext'] and r.bits(1) == '1':
            i = r_small(r)
            ext = ir.ext_alts(t)
            if i >= len(ext):
                raise RefError('unknown alternative')
            return (ext[i]['n'], r_open(r, ext[i]['t']))
        i = r_constrained(r, 0, len(t['root']) - 1)
        return (t['root'][i]['n'], r_type(r, t['root'][i]['t']))
    raise AssertionError(k)


def decode(t, data):
    """Returns (value, bits consumed). Raises RefError / Unsupported."""
    r = R(data)
    v = r_type(r, t)
    return v, r.p
