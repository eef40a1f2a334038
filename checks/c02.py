"""C02 Encoder emits the X.691 ALIGNED PER bytes, exactly."""
from asn1PERser import encode
from vlib import build, work

ID = 'C02'
RULE = ('seeded types and values (flat, deep, boundary sweeps behind 0..7 bits, long strings) built in one of three ways; '
        'every encode call is observed and its octets compared with an independent X.691 encoder')
PLAN = {'quick': {'flat': 14000, 'deep': 14000, 'sweep': 34000, 'long': 900},
        'thorough': {'flat': 140000, 'deep': 160000, 'sweep': 360000, 'long': 9000}}
NEED = {'encodings compared': 30000}
ASSUMPTIONS = ['the reference encoder in vlib/ref.py implements X.691; it was validated against the vectors in the '
               "repository's own tests (tools/validate_ref.py)"]
context, shrink = work.context, work.shrink


def generate(kind, r, ctx):
    return work.make(kind, r, ctx)


def run(case, obs):
    t, v = case['t'], case['v']
    want = work.expected(t, v)
    if want is None:
        obs.event('unsupported (see C14)')
        return
    n = build.build(t, memo={} if case['share'] else None)
    o = n.make(v, case['how'])
    data = encode(asn1Spec=o)
    if not isinstance(data, (bytes, bytearray)):
        return 'result type: encode returned %r' % type(data)
    if bytes(data) != want:
        return 'bytes: %r encoded as %s, X.691 says %s' % (v, data.hex(), want.hex())
    obs.event('encodings compared')
    obs.event('octets', len(want))
    for f in work.features(t, v):
        obs.state('codec decisions', f)
