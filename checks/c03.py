"""C03 Decoder reads every conforming encoding of its type."""
from asn1PERser import decode
from vlib import build, ir, ref, work

ID = 'C03'
RULE = ('seeded types and values; the octets come from an independent X.691 encoder, in canonical form and with the '
        'choices another sender has (all or some DEFAULT values sent explicitly, groups of nothing but defaults sent as present); given as bytes or bytearray; the decoded object '
        'is read component by component')
PLAN = {'quick': {'flat': 12000, 'deep': 12000, 'sweep': 28000, 'long': 700},
        'thorough': {'flat': 120000, 'deep': 130000, 'sweep': 300000, 'long': 7000}}
NEED = {'encodings decoded': 30000, 'explicit defaults decoded': 1000, 'groups of defaults decoded': 300}
ASSUMPTIONS = ['the reference encoder in vlib/ref.py implements X.691']
context, shrink = work.context, work.shrink


def generate(kind, r, ctx):
    return work.make(kind, r, ctx)


def run(case, obs):
    t, v = case['t'], case['v']
    forms = [work.expected(t, v)]
    if forms[0] is None:
        obs.event('unsupported (see C14)')
        return
    full = ir.complete(t, v)
    try:
        for w in (v, ir.explicit(t, v)):
            for choice in (True, 'x', 'yy'):
                x = ref.encode(t, w, send_defaults=choice)
                if x not in forms:
                    forms.append(x)
                    obs.event('explicit defaults decoded')
        for choice in (False, 'x'):
            x = ref.encode(t, ir.explicit(t, v), send_defaults=choice, send_groups=True)
            if x not in forms:
                forms.append(x)
                obs.event('groups of defaults decoded')
    except ref.Unsupported:
        pass
    n = build.build(t, memo={} if case['share'] else None)
    for i, data in enumerate(forms):
        d = decode(per_stream=bytearray(data) if (case['how'] + i) % 2 else data, asn1Spec=n.cls())
        got = n.read(d)
        if got != full:
            return 'value: %s decoded as %r, X.691 says %r' % (data.hex(), got, full)
        obs.event('encodings decoded')
    for f in work.features(t, v):
        obs.state('codec decisions', f)
