"""C10 to_dict and str show exactly the message."""
import json
import sys
from asn1PERser import encode, decode
from vlib import build, ir, observe, work

sys.set_int_max_str_digits(0)      # Python's own limit, not the library's

ID = 'C10'
RULE = ('seeded types and values, as built in three spellings and as decoded; every to_dict result is compared with a '
        'model (keys, order, values, Python types), must be JSON-serialisable and come back equal, and must not change; '
        'every str result is compared with a model of the printed structure')
PLAN = {'quick': {'flat': 9000, 'deep': 12000, 'sweep': 7000, 'long': 200},
        'thorough': {'flat': 100000, 'deep': 140000, 'sweep': 80000, 'long': 2000}}
NEED = {'to_dict compared': 20000, 'str compared': 20000}
ASSUMPTIONS = ['a BIT STRING is shown as an integer, which does not show leading zeros or the length (as in the '
               'repository tests)', 'Python itself refuses to print integers of more than 4300 digits (long BIT STRINGs) unless told otherwise; the '
               'check lifts that limit', 'str shows DEFAULT components only where they were set or sent']
context, shrink = work.context, work.shrink


def generate(kind, r, ctx):
    return work.make(kind, r, ctx)


def run(case, obs):
    t, v = case['t'], case['v']
    data = work.expected(t, v)
    n = build.build(t, memo={} if case['share'] else None)
    want = observe.as_dict(t, v)
    forms = [('built', n.make(v, case['how']), v)]
    if data is not None:
        forms.append(('decoded', decode(per_stream=data, asn1Spec=n.cls()), sent(t, v)))
    for what, o, shown in forms:
        got = o.to_dict()
        if not observe.same(got, want):
            return 'to_dict: %s message of %s shows %s, expected %s' % (what, repr(v)[:600], repr(got)[:600], repr(want)[:600])
        back = json.loads(json.dumps(got))
        if back != json.loads(json.dumps(want)):
            return 'json: %r came back as %r' % (got, back)
        if not observe.same(o.to_dict(), want):
            return 'to_dict: second call on the %s message of %r differs' % (what, v)
        obs.event('to_dict compared')
        if t['k'] not in ('seq', 'seqof', 'choice'):
            continue      # str of a plain value is that of Python
        text, model = str(o), observe.as_text(n, shown)
        if text != model:
            return 'str: %s message of %s prints %r, expected %r' % (what, repr(v)[:600], text[:800], model[:800])
        obs.event('str compared')
        if not observe.same(o.to_dict(), want):
            return 'to_dict: differs after str on the %s message of %r' % (what, v)
    work.keys(obs, t, v)


def sent(t, v):
    """The components an encoder sends (DEFAULT values are left out)."""
    k = t['k']
    if k == 'seqof':
        return [sent(t['elem'], x) for x in v]
    if k == 'choice':
        return (v[0], sent([a for a in ir.alts(t) if a['n'] == v[0]][0]['t'], v[1]))
    if k == 'seq':
        return {f['n']: sent(f['t'], v[f['n']]) for f in ir.alts(t) if ir.sent(f, v)}
    return v
