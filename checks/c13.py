"""C13 Logging never changes results."""
import io
import logging
import os
import re
import subprocess
import sys
import warnings
from asn1PERser import encode, decode, parse_asn1_schema, asn1perser_logging_setup
from vlib import build, gen, gentext, ir, observe, runner, text, work
from checks import c06, c07

ID = 'C13'
RULE = ('seeded types, octet strings, valid and damaged, and messages, complete and incomplete; every decode and encode (and the parsing of a module) runs under the default configuration '
        'and under randomly chosen levels, handlers and formatters; result or exception (type and text) must be the same, '
        'every record must format, a user handler must get records iff its level asks for them, and file descriptors 1 '
        'and 2 must stay silent unless the user installs a handler on them')
PLAN = {'quick': {'flat': 2600, 'deep': 2600, 'sweep': 3500, 'tight': 1200, 'process': 4, 'schema': 60},
        'thorough': {'flat': 30000, 'deep': 30000, 'sweep': 45000, 'tight': 15000, 'process': 16, 'schema': 600}}
NEED = {'results compared': 20000, 'records formatted': 100000, 'errors compared': 4000, 'encodings compared': 8000,
        'refused encodings compared': 3000, 'schemas compared': 50}
ASSUMPTIONS = ['handlers that raise are the business of who installs them']
context = work.context
LONG = 'ValueError: Exceeds the limit (4300 digits) for integer string conversion'       # see KNOWN_FINDINGS.txt
LEVELS = [0, 1, 5, 10, 15, 20, 25, 30, 40, 50, 60]
HANDLERS = ['string', 'string', 'collect', 'null', 'custom format', 'root only', 'two', 'child', 'off', 'disabled']


def generate(kind, r, ctx):
    if kind == 'process':
        return {'script': r.choice(('silent', 'silent', 'handler'))}
    if kind == 'schema':
        m = gentext.make(r, (), depth=1)[0]
        while len(text.module_tokens(m)) > 90:
            m = gentext.make(r, (), depth=1)[0]
        src = text.plain(m)
        return {'src': src if r.random() < 0.7 else src[:r.randrange(len(src))], 'config': [r.choice(LEVELS), r.choice(HANDLERS)]}
    c = c07.generate(kind, r, ctx)
    if c is None:
        return None
    if c['t']['k'] in ('seq', 'seqof', 'choice'):
        g = gen.G(r, (), depth=1, max_len=6)
        v = g.value(c['t'])
        p, pc = r.choice(((0, 0), (0.1, 0), (0.3, 0.1)))
        c['built'] = [[v, r.randrange(3)], [c06.thin(r, c['t'], v, p, pc), r.randrange(3)]]
    c['damaged'] = c['damaged'][:3]
    c['ncut'] = 0
    c['configs'] = [[r.choice(LEVELS), r.choice(HANDLERS)] for _ in range(2)] + [[10, 'string']]
    return c


class Collect(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.seen = []
        self.broken = []

    def emit(self, record):
        try:
            self.seen.append((record.filename if hasattr(record, 'filename') else record.pathname, record.lineno, len(record.getMessage())))
        except Exception as e:
            self.broken.append('%s:%d %r %r: %s' % (record.pathname, record.lineno, record.msg, record.args, e))


def outcome(n, spec, x):
    try:
        d = decode(per_stream=x, asn1Spec=spec)
    except Exception as e:
        if not runner.from_library(e):
            raise
        return ('raised', type(e).__name__, str(e))
    return ('value', observe.peek(n, d), bytes(encode(asn1Spec=d)) if complete(n, d) else None)


def sent(n, v, how):
    try:
        o = c06.make(n, v, how)
        return ('value', bytes(encode(asn1Spec=o)), observe.peek(n, o))
    except Exception as e:
        if not runner.from_library(e):
            raise
        return ('raised', type(e).__name__, re.sub('0x[0-9a-f]+', '', str(e)))


def parsed(src):
    try:
        return ('value', parse_asn1_schema(src))
    except Exception as e:
        return ('raised', type(e).__name__, str(e))


def complete(n, d):
    return ir.complete_message(n.t, observe.value(n, d)) is True


class Quiet(object):
    """Everything written to file descriptors 1 and 2, by whatever route (warnings that Python prints by default included)."""

    def __enter__(self):
        sys.stdout.flush(), sys.stderr.flush()
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter('always')
        for c in (DeprecationWarning, PendingDeprecationWarning, ImportWarning, ResourceWarning):
            warnings.simplefilter('ignore', c)      # as Python does by default
        self.f = os.memfd_create('out')
        self.old = os.dup(1), os.dup(2)
        os.dup2(self.f, 1), os.dup2(self.f, 2)
        return self

    def __exit__(self, *a):
        self.w.__exit__(*a)
        sys.stdout.flush(), sys.stderr.flush()
        os.dup2(self.old[0], 1), os.dup2(self.old[1], 2)
        os.close(self.old[0]), os.close(self.old[1])
        os.lseek(self.f, 0, 0)
        self.text = os.read(self.f, 100000).decode('utf-8', 'replace')
        os.close(self.f)


def run(case, obs):
    if 'script' in case:
        return process(case, obs)
    if 'src' in case:
        case = dict(case, data=b'\x80', damaged=[], configs=[case['config']], t={'k': 'bool'})
    t = case['t']
    n = build.build(t)
    xs = [case['data']] + list(case['damaged'])
    with Quiet() as q:
        base = [outcome(n, n.cls(), x) for x in xs]
        # lists of very many elements without bits take minutes to log
        base, xs = [list(x) for x in zip(*([(b, x) for b, x in zip(base, xs) if len(repr(b)) < 60000] or [(base[0], xs[0])]))]
        base_sent = [sent(n, v, how) for v, how in case.get('built', ())]
        base_code = parsed(case['src']) if 'src' in case else None
    if q.text:
        return 'output: with the default configuration, %r was written' % q.text[:300]
    for level, what in case['configs']:
        log = logging.getLogger('asn1perser')
        sub = logging.getLogger('asn1perser.decoder')
        state = (list(log.handlers), log.level, log.propagate, list(logging.root.handlers), logging.root.level, sub.level,
                 list(sub.handlers), logging.root.manager.disable)
        stream = io.StringIO()
        col = Collect()
        try:
            if what == 'string':
                asn1perser_logging_setup(logging.StreamHandler(stream), level)
            elif what == 'collect':
                asn1perser_logging_setup(handler=col, level=level)
            elif what == 'null':
                asn1perser_logging_setup(level=level)
            elif what == 'custom format':
                h = logging.StreamHandler(stream)
                h.setFormatter(logging.Formatter('%(asctime)s %(process)d %(threadName)s %(funcName)s %(message)s'))
                asn1perser_logging_setup(h, level)
            elif what == 'root only':
                logging.root.addHandler(col)
                logging.root.setLevel(level)
                log.setLevel(level)
            elif what == 'two':
                asn1perser_logging_setup(logging.StreamHandler(stream), level)
                asn1perser_logging_setup(col, level)
            elif what == 'child':
                sub.setLevel(level)
                sub.addHandler(col)
            elif what == 'off':
                log.setLevel(logging.CRITICAL + 10)
            else:
                asn1perser_logging_setup(logging.StreamHandler(stream), level)
                logging.disable(level)
            with Quiet() as q:
                got = [outcome(n, n.cls(), x) for x in xs]
                got_sent = [sent(n, v, how) for v, how in case.get('built', ())]
                got_code = parsed(case['src']) if 'src' in case else None
        finally:
            log.handlers[:], sub.handlers[:], logging.root.handlers[:] = state[0], state[6], state[3]
            log.setLevel(state[1]), logging.root.setLevel(state[4]), sub.setLevel(state[5])
            log.propagate = state[2]
            logging.disable(state[7])
        if q.text and LONG not in q.text:
            return 'output: level %d, %s: %r was written to stdout or stderr' % (level, what, q.text[:600])
        if col.broken:
            return 'record: level %d, %s: %s' % (level, what, col.broken[0])
        for x, a, b in zip(xs, base, got):
            if a != b:
                return 'result: level %d, %s: %s gives %s, without logging %s' % (level, what, x.hex(), repr(b)[:500], repr(a)[:500])
            obs.event('results compared' if a[0] == 'value' else 'errors compared')
        for (v, how), a, b in zip(case.get('built', ()), base_sent, got_sent):
            if a != b:
                return 'result: level %d, %s: encoding %r gives %s, without logging %s' % (level, what, v, repr(b)[:500], repr(a)[:500])
            obs.event('encodings compared' if a[0] == 'value' else 'refused encodings compared')
        if base_code != got_code:
            return 'result: level %d, %s: parsing gives %r, without logging %r' % (level, what, got_code, base_code)
        if base_code:
            obs.event('schemas compared')
        logged = stream.getvalue()
        if what == 'string' and level in (10, 20) and not logged:
            return 'records: level %d: a decode left no record' % level
        if what in ('string', 'custom format', 'two') and level > 40 and logged:
            return 'records: level %d: %r was logged' % (level, logged[:200])
        obs.event('records formatted', logged.count('\n') + len(col.seen))
        for s in col.seen:
            obs.state('log statements', s[0], s[1])
        for line in logged.split('\n')[:400]:
            obs.state('log lines', line[:40])
        obs.state('configurations', level, what)


CODE = '''
import sys
import asn1PERser
from asn1PERser import encode, decode, asn1perser_logging_setup
from asn1PERser.classes.data.builtin import *
from asn1PERser.classes.types.type import AdditiveNamedTypes
from asn1PERser.classes.types.constraint import ValueRange
from pyasn1.type.namedtype import NamedType
class I(IntegerType):
    subtypeSpec = ValueRange(0, 5)
class S(SequenceType):
    rootComponent = AdditiveNamedTypes(NamedType('a', I()), NamedType('b', BooleanType()))
    componentType = rootComponent
if sys.argv[1] == 'handler':
    import logging
    asn1perser_logging_setup(logging.StreamHandler())
s = S()
s['a'] = 3
s['b'] = True
x = encode(asn1Spec=s)
d = decode(per_stream=x, asn1Spec=S())
assert int(d['a']) == 3 and bool(d['b']), d
try:
    decode(per_stream=b'\\xff', asn1Spec=S())
except Exception:
    pass
else:
    raise SystemExit(3)
'''


def process(case, obs):
    p = subprocess.run([sys.executable, '-W', 'ignore::DeprecationWarning', '-c', CODE, case['script']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    obs.event('processes watched')
    if p.returncode:
        return 'process: %s ends with %d: %s' % (case['script'], p.returncode, p.stderr.decode()[-500:])
    if p.stdout:
        return 'output: %r on stdout' % p.stdout[:300]
    if case['script'] == 'silent' and p.stderr:
        return 'output: %r on stderr without any handler' % p.stderr[:300]
    if case['script'] == 'handler' and not p.stderr:
        return 'records: a StreamHandler at the default level got nothing'


def shrink(case):
    if 'script' in case or 'src' in case:
        return
    for c in case['configs']:
        if len(case['configs']) > 1:
            yield dict(case, configs=[c])
    if len(case['damaged']) > 0:
        for x in case['damaged']:
            yield dict(case, damaged=[], data=x)
        yield dict(case, damaged=[])


def probe_long():
    """Records of an INTEGER of more than 4300 digits, for a handler that does not write to stderr."""
    log = logging.getLogger('asn1perser')
    old = list(log.handlers), log.level
    with Quiet() as q:
        try:
            asn1perser_logging_setup(logging.StreamHandler(io.StringIO()), logging.INFO)
            decode(per_stream=bytes((0x87, 0xd0)) + b'\x55' * 2000, asn1Spec=build.IntegerType())
        finally:
            log.handlers[:] = old[0]
            log.setLevel(old[1])
    return 'writes %d characters to stderr' % len(q.text) if q.text else None


PROBES = {'long-integer': probe_long}
