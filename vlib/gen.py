"""Seeded generators of types and values, biased to the boundaries of X.691 and to the integer constants
that occur in the code under test (an auto-dictionary, re-read from /repo on every run)."""
import ast
import os
import string
from . import ir

BOUND = sorted({0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258,
                511, 512, 1000, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65538,
                (1 << 24) - 2, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 2,
                (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 40) - 1, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1,
                1 << 64, (1 << 64) + 1})


def harvest(repo):
    """Integer constants in the non-test source of the library."""
    out = set()
    for d, dirs, files in os.walk(os.path.join(repo, 'asn1PERser')):
        dirs[:] = [x for x in dirs if x not in ('test', '__pycache__')]
        for f in files:
            if f.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 1 << 80:
                        out.add(abs(n.value))
                    elif isinstance(n, ast.BinOp):
                        try:
                            v = eval(compile(ast.Expression(n), 'c', 'eval'), {'__builtins__': {}})
                        except Exception:
                            continue
                        if type(v) is int and abs(v) < 1 << 80:
                            out.add(abs(v))
    return out


def printable(x):
    """Python refuses to print integers (bit strings) of more than 4300 digits, and pyasn1 prints DEFAULTs when a class is made."""
    return not (isinstance(x, int) and x.bit_length() > 10000 or isinstance(x, str) and len(x) > 10000)


def items(r, n):
    """Names of enumeration items, whose alphabetical order is not theirs."""
    c = r.random()
    if c < 0.4:
        return ['e%d' % i for i in range(n)]
    base = r.choice(('on-', 'aB-c-D', 'x', 'notOk', 'value-'))
    if c < 0.7:
        return ['%s%d' % (base, n - i) for i in range(n)]
    return ['%s%d%s' % (base, i, '-%s' % 'zbaR'[i % 4] if i % 3 else 'Q') for i in range(n)]


class G(object):
    def __init__(self, rnd, extra=(), depth=3, max_len=40, big=0.02):
        self.r = rnd
        self.extra = sorted(set(extra))
        self.depth = depth
        self.max_len = max_len        # usual cap on string / list lengths
        self.big = big                # probability of a long string
        self.names = 0
        self.pool = []                # types already made, to use some of them again

    # -------------------------------------------------------------- numbers
    def magnitude(self):
        r = self.r
        c = r.random()
        if c < 0.45:
            return max(0, r.choice(BOUND) + r.choice((-1, 0, 0, 0, 1)))
        if c < 0.60 and self.extra:
            return max(0, r.choice(self.extra) + r.choice((-2, -1, 0, 0, 1, 2)))
        if c < 0.75:
            return r.randrange(0, 300)
        if c < 0.80:
            return (1 << r.randrange(0, 90)) + r.choice((-1, 0, 1))
        if c < 0.82:
            return r.getrandbits(r.choice((900, 1000, 1015, 1016, 1017, 1023, 1024, 1100, 2000)))
        return r.getrandbits(r.randrange(1, 72))

    def signed(self):
        m = self.magnitude()
        return -m if self.r.random() < 0.4 else m

    def length(self, cap=None):
        r = self.r
        cap = self.max_len if cap is None else cap
        c = r.random()
        if c < 0.5:
            return r.choice([x for x in (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 24, 31, 32, 33, 63, 64, 65) if x <= cap] or [0])
        if c < 0.62 and self.extra:
            xs = [x for x in self.extra if x <= cap + 2]
            return max(0, min(cap, r.choice(xs) + r.choice((-1, 0, 1))))
        return r.randrange(0, cap + 1)

    def ident(self):
        self.names += 1
        r = self.r
        base = r.choice(string.ascii_lowercase) + ''.join(r.choice(string.ascii_lowercase + string.digits)
                                                           for _ in range(r.randrange(0, 3)))
        s = '%s%s%d' % (base, r.choice(('X', '-', 'yZ')), self.names)
        return s

    # ---------------------------------------------------------------- types
    def t_bool(self):
        return {'k': 'bool'}

    def t_int(self):
        r = self.r
        c = r.random()
        ext = r.random() < 0.3
        if c < 0.15:
            return {'k': 'int', 'lb': None, 'ub': None, 'ext': False}
        if c < 0.27:
            return {'k': 'int', 'lb': self.signed(), 'ub': None, 'ext': r.random() < 0.2}
        if c < 0.33:
            return {'k': 'int', 'lb': None, 'ub': self.signed(), 'ext': r.random() < 0.2}
        lb = r.choice((0, 0, 1, -1, self.signed()))
        return {'k': 'int', 'lb': lb, 'ub': lb + max(0, self.magnitude() - r.choice((0, 1))), 'ext': ext}

    def size_constraint(self, cap):
        r = self.r
        c = r.random()
        ext = r.random() < 0.3
        if c < 0.2:
            return None, None, False
        if c < 0.27:
            return self.length(cap), None, False
        if c < 0.5:
            n = self.length(cap)
            return n, n, ext
        lb = self.length(cap)
        if c < 0.62:
            lb = 0
        ub = lb + r.choice((0, 1, 2, 3, 7, 254, 255, 256, 257, self.length(cap), 65534, 65535, 65536, 65537,
                            70000, 1 << 20))
        if r.random() < 0.1:
            ub = max(lb, r.choice((255, 256, 65534, 65535, 65536)))
        return lb, ub, ext

    def t_bits(self):
        lb, ub, ext = self.size_constraint(self.max_len)
        return {'k': 'bits', 'lb': lb, 'ub': ub, 'ext': ext}

    def t_octs(self):
        lb, ub, ext = self.size_constraint(self.max_len)
        return {'k': 'octs', 'lb': lb, 'ub': ub, 'ext': ext}

    def t_enum(self):
        r = self.r
        n = r.choice((1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 128, 129, 255, 256, 257, 300)) if r.random() < 0.3 \
            else r.randrange(1, 6)
        ext = r.random() < 0.5
        m = 0
        if ext:
            m = r.choice((0, 1, 2, 3, 5)) if r.random() < 0.8 else r.choice((63, 64, 65, 66, 70, 130, 257))
        ns = items(r, n + m)
        return {'k': 'enum', 'root': ns[:n], 'ext': ext, 'adds': ns[n:]}

    def t_simple(self):
        return self.r.choice((self.t_bool, self.t_int, self.t_int, self.t_enum, self.t_bits, self.t_octs))()

    def t_seqof(self, d):
        lb, ub, ext = self.size_constraint(6 if self.r.random() < 0.85 else 30)
        return {'k': 'seqof', 'elem': self.type(d - 1), 'lb': lb, 'ub': ub, 'ext': ext}

    def field(self, d, dflt=True):
        r = self.r
        t = self.type(d - 1)
        f = {'n': self.ident(), 't': t, 'o': 'm'}
        c = r.random()
        if c < 0.3:
            f['o'] = 'o'
        elif c < 0.5 and dflt and t['k'] in ('bool', 'int', 'enum', 'bits', 'octs'):
            x = self.value(t)
            if printable(x):
                f['o'] = 'd'
                f['d'] = x
        return f

    def t_seq(self, d):
        r = self.r
        n = r.choice((1, 1, 2, 2, 3, 4, 5, 9)) if r.random() < 0.95 else r.choice((16, 20))
        root = [self.field(d) for _ in range(n)]
        ext = r.random() < 0.5
        adds, groups = [], []
        if ext and r.random() < 0.75:
            adds = [self.field(d, dflt=r.random() < 0.3) for _ in range(r.choice((0, 1, 1, 2, 3, 4)))]
            groups = [[self.field(d, dflt=r.random() < 0.3) for _ in range(r.choice((1, 1, 2, 3)))]
                      for _ in range(r.choice((0, 0, 1, 1, 2, 3)))]
            if r.random() < 0.03:
                adds += [{'n': self.ident(), 't': self.t_bool(), 'o': 'o'}
                         for _ in range(r.choice((7, 8, 9, 59, 60, 61)))]
        if ext and r.random() < 0.04:
            root = []
        return {'k': 'seq', 'root': root, 'ext': ext, 'adds': adds, 'groups': groups}

    def t_choice(self, d):
        r = self.r

        def alt(t=None):
            return {'n': self.ident(), 't': t or self.type(d - 1)}
        n = r.choice((1, 2, 2, 3, 4, 5, 8, 9))
        root = [alt() for _ in range(n)]
        if r.random() < 0.03:
            root += [alt(self.t_bool()) for _ in range(r.choice((60, 120, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257)))]
        ext = r.random() < 0.5
        adds, groups = [], []
        if ext and r.random() < 0.75:
            adds = [alt() for _ in range(r.choice((0, 1, 1, 2, 3)))]
            groups = [[alt() for _ in range(r.choice((1, 1, 2)))] for _ in range(r.choice((0, 0, 1, 2)))]
            if r.random() < 0.06:
                adds += [alt(self.t_bool()) for _ in range(r.choice((61, 62, 63, 64, 65, 70, 256)))]
        return {'k': 'choice', 'root': root, 'ext': ext, 'adds': adds, 'groups': groups}

    def type(self, d=None):
        d = self.depth if d is None else d
        if self.pool and self.r.random() < 0.12:
            return self.r.choice(self.pool)
        t = self._type(d)
        if len(self.pool) < 12 and sum(1 for _ in ir.walk(t)) < 12:
            self.pool.append(t)
        return t

    def _type(self, d):
        if d <= 0 or self.r.random() < (0.25 if d == self.depth else 0.5):
            return self.t_simple()
        return self.r.choice((self.t_seq, self.t_seq, self.t_choice, self.t_seqof))(d)

    # --------------------------------------------------------------- values
    def bits(self, n):
        if n == 0:
            return ''
        c = self.r.random()
        if c < 0.12:
            return '0' * n
        if c < 0.2:
            return '1' * n
        if c < 0.35:
            z = self.r.randrange(0, n + 1)
            return '0' * z + format(self.r.getrandbits(n - z + 1), '0%db' % (n - z + 1))[1:]
        return format(self.r.getrandbits(n), '0%db' % n)

    def octets(self, n):
        s = self.bits(8 * n)
        return int('1' + s, 2).to_bytes(n + 1, 'big')[1:] if n else b''

    def count(self, t, cap):
        """A size within the type (extension included)."""
        r = self.r
        lb = t['lb'] or 0
        ub = t['ub']
        if t['ext'] and r.random() < 0.4:
            for _ in range(6):
                n = r.choice((lb - 1, 0, (ub or 0) + 1, (ub or 0) + 2, self.length(cap)))
                if n >= 0 and n <= max(cap, 300) and not ir.in_root(t, n):
                    return n
        hi = lb + cap if ub is None else ub
        c = r.random()
        if c < 0.25:
            n = lb
        elif c < 0.45 and hi <= max(cap, 300):
            n = hi
        elif c < 0.6:
            n = lb + self.length(cap)
        elif c < 0.7:
            n = lb + 1
        else:
            n = self.length(cap)
        n = min(max(n, lb), hi)
        if n > max(cap, 300) and lb <= cap:
            n = lb + r.randrange(0, cap - lb + 1)
        return n

    def value(self, t, budget=None):
        r = self.r
        k = t['k']
        if k == 'bool':
            return r.random() < 0.5
        if k == 'int':
            return self.int_value(t)
        if k == 'enum':
            if t['adds'] and r.random() < 0.5:
                return r.choice((t['adds'][0], t['adds'][-1], r.choice(t['adds'])))
            return r.choice((t['root'][0], t['root'][-1], r.choice(t['root'])))
        if k == 'bits':
            cap = self.max_len
            if r.random() < self.big:
                cap = r.choice((127, 128, 129, 300, 1500))
            return self.bits(self.count(t, cap))
        if k == 'octs':
            cap = self.max_len
            if r.random() < self.big:
                cap = r.choice((127, 128, 129, 300))
            return self.octets(self.count(t, cap))
        if k == 'seqof':
            cap = 6 if r.random() < 0.9 else 20
            if r.random() < self.big and t['elem']['k'] in ('bool', 'int'):
                cap = r.choice((127, 128, 129, 260))
            return [self.value(t['elem']) for _ in range(self.count(t, cap))]
        if k == 'choice':
            a = r.choice(ir.alts(t)) if r.random() < 0.6 else r.choice(ir.ext_alts(t) or t['root'])
            return (a['n'], self.value(a['t']))
        v = {}
        for f in t['root']:
            self._field(f, v)
        if t['ext'] and r.random() < 0.65:
            if not self._additions(t['adds'], v):
                return v
            cut = r.random() < 0.3
            for g in t['groups']:
                if cut and r.random() < 0.5:
                    break
                self._group(g, v)
        return v

    def _field(self, f, v):
        r = self.r
        if f['o'] == 'm':
            v[f['n']] = self.value(f['t'])
        elif f['o'] == 'o':
            if r.random() < 0.6:
                v[f['n']] = self.value(f['t'])
        else:
            c = r.random()
            if c < 0.4:
                v[f['n']] = self.value(f['t'])
            elif c < 0.6:
                v[f['n']] = f['d']

    def _additions(self, adds, v):
        """Mandatory additions may only be missing from the tail (an older sender)."""
        r = self.r
        stop = len(adds) if r.random() < 0.5 else r.randrange(0, len(adds) + 1)
        for f in adds[:stop]:
            self._field(f, v)
        return not any(f['o'] == 'm' for f in adds[stop:])

    def _group(self, g, v):
        for f in g:
            self._field(f, v)

    def int_value(self, t):
        r = self.r
        lb, ub = t['lb'], t['ub']
        if t['ext'] and r.random() < 0.4:
            for _ in range(6):
                n = r.choice(((lb or 0) - 1, (ub or 0) + 1, self.signed(), (lb or 0) - self.magnitude(),
                              (ub or 0) + self.magnitude()))
                if not ir.in_root(t, n):
                    return n
        if lb is None and ub is None:
            return self.signed()
        if ub is None:
            return lb + self.magnitude()
        if lb is None:
            return ub - self.magnitude()
        c = r.random()
        if c < 0.2:
            return lb
        if c < 0.4:
            return ub
        if c < 0.5:
            return min(ub, lb + 1)
        if c < 0.55:
            return max(lb, ub - 1)
        if c < 0.8:
            return lb + min(ub - lb, self.magnitude())
        return r.randrange(lb, ub + 1)
