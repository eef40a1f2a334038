"""C01 Encode then decode returns the same message."""
from asn1PERser import encode, decode
from vlib import build, ir, work

ID = 'C01'
RULE = ('seeded types and values (flat, deep, boundary sweeps behind 0..7 bits, long strings); each is built in one of '
        'three ways, encoded, decoded into a fresh object, read back component by component and encoded again; '
        'non-trivial: the value has at least one bit of content and is supported')
PLAN = {'quick': {'flat': 9000, 'deep': 9000, 'sweep': 22000, 'long': 700},
        'thorough': {'flat': 90000, 'deep': 110000, 'sweep': 240000, 'long': 7000}}
NEED = {'round trips': 20000}
ASSUMPTIONS = ['constructed values are built with clear() so that empty ones count as values (pyasn1 idiom)']
context, shrink = work.context, work.shrink


def generate(kind, r, ctx):
    return work.make(kind, r, ctx)


def run(case, obs):
    t, v = case['t'], case['v']
    if work.expected(t, v) is None:
        obs.event('unsupported (see C14)')
        return
    n = build.build(t, memo={} if case['share'] else None)
    o = n.make(v, case['how'])
    data = encode(asn1Spec=o)
    d = decode(per_stream=data, asn1Spec=n.cls())
    got = n.read(d)
    want = ir.complete(t, v)
    if got != want:
        return 'round trip: built %r, decoded %r from %s' % (want, got, data.hex())
    if type(d) is not n.cls:
        return 'type: decoded %s for a %s' % (type(d).__name__, n.cls.__name__)
    again = encode(asn1Spec=d)
    if bytes(again) != bytes(data):
        return 're-encode: %s decoded and encoded again gives %s' % (data.hex(), again.hex())
    back = n.read(decode(per_stream=again, asn1Spec=n.cls()))
    if back != want:
        return 'second round trip: %r became %r' % (want, back)
    obs.event('round trips')
    obs.event('octets', len(data))
    for f in work.features(t, v):
        obs.state('codec decisions', f)
