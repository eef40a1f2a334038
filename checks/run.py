"""Entry point: python -m checks.run C01 [--thorough] [--replay FILE]"""
import os
import sys
import pyparsing
# The grammar is exponential without memoisation (schemas of a few lines take minutes). Packrat parsing must be
# switched on before the grammar is imported; C11 / C12 also run schemas without it.
if not os.environ.get('VERIF_NO_PACKRAT'):
    pyparsing.ParserElement.enablePackrat(cache_size_limit=None)
import asn1PERser
from vlib import runner

if __name__ == '__main__':
    repo = os.path.realpath(runner.REPO)
    if not os.path.realpath(asn1PERser.__file__).startswith(repo + os.sep):
        print('asn1PERser imported from %s, not from %s' % (asn1PERser.__file__, repo))
        sys.exit(2)
    sys.exit(runner.main('checks.' + sys.argv[1].lower(), sys.argv[2:]))
