"""Validates vlib/ref.py on the ~1500 vectors of the repository's own codec tests: runs those tests with encode and
decode wrapped, and compares every successful call with the reference codec. Run by setup_cmd? No: a development tool.

  PYTHONPATH=/repo:/verif /opt/venv/bin/python -W ignore tools/validate_ref.py
"""
import collections
import sys
import pytest
import asn1PERser
import asn1PERser.codec.per.encoder as E
import asn1PERser.codec.per.decoder as D
from vlib import introspect, ir, ref

C = collections.Counter()
BAD = []
enc, dec = E.encode, D.decode


def encode(asn1Spec):
    out = enc(asn1Spec=asn1Spec)
    try:
        n = introspect.node(asn1Spec)
        v = n.read(asn1Spec)
        want = ref.encode(n.t, v)
    except Exception as e:
        C['encode skipped ' + type(e).__name__] += 1
    else:
        C['encode agrees' if want == bytes(out) else 'encode DISAGREES'] += 1
        if want != bytes(out):
            BAD.append((n.t, v, bytes(out).hex(), want.hex()))
    return out


def decode(per_stream, asn1Spec):
    out = dec(per_stream=per_stream, asn1Spec=asn1Spec)
    try:
        n = introspect.node(asn1Spec)
        want, _ = ref.decode(n.t, bytes(per_stream))
        got = n.read(out)
    except Exception as e:
        C['decode skipped ' + type(e).__name__] += 1
    else:
        ok = ir.complete(n.t, want) == got
        C['decode agrees' if ok else 'decode DISAGREES'] += 1
        if not ok:
            BAD.append((n.t, bytes(per_stream).hex(), got, want))
    return out


E.encode = asn1PERser.encode = encode
D.decode = asn1PERser.decode = decode
pytest.main(['-q', '-p', 'no:cacheprovider', '-p', 'no:xdist', '/repo/asn1PERser/test/per', '--no-header', '-W', 'ignore', '--tb=no'])
for k, n in sorted(C.items()):
    print(n, k)
for b in BAD[:5]:
    print(b)
sys.exit(1 if BAD else 0)
