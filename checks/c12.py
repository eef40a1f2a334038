"""C12 Schema parsing is a function of the schema alone."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from asn1PERser import parse_asn1_schema
from vlib import gentext, runner, text, work, zygote

ID = 'C12'
RULE = ('seeded modules as in C11; each case is a history of parse calls in one process: modules, other modules that define the same names '
        'differently, texts that fail, the same module with other white space and comments between its lexical items, with and without '
        'output_folder; every result is compared with what a process that never parsed before returns for the plain spelling')
PLAN = {'quick': {'layout': 500, 'history': 300, 'files': 200, 'bare': 24},
        'thorough': {'layout': 12000, 'history': 6000, 'files': 2500, 'bare': 400}}
CHUNK = 12
NEED = {'layouts compared': 1500, 'histories compared': 800, 'failed parses': 250, 'files compared': 250, 'without memoisation': 15}
ASSUMPTIONS = ['pyparsing memoisation (packrat) is switched on, as the grammar is exponential without it; kind "bare" compares small modules with it off']
context = work.context


def answer(src):
    try:
        return ('ok', parse_asn1_schema(src))
    except RecursionError:
        return ('deep',)
    except Exception as e:
        return ('exc', type(e).__name__)


def prepare(tier):
    pass


# ------------------------------------------------------------------ spelling
WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-')


def glue(a, b):
    """May the lexical items a and b stand next to each other without anything between them?"""
    if a[-1] in WORD and b[0] in WORD:
        return False
    if a[-1] == '.' or b[0] == '.':     # 1..2 is fine, 1.. ... is not
        return a != '...' and b != '...' and not (a[-1] == '.' and b[0] == '.')
    if a[-1] in ':[' and b[0] in ':=[' or a[-1] in ']' and b[0] == ']':
        return False
    if a[-1] == "'" or b[0] == "'":
        return False
    if b[0] == '-' or a[-1] == '-':
        return False
    return True


WORDS = ['x', 'END', 'BEGIN', '::=', "'", '"', '{', '}', 'A ::= BOOLEAN', 'note: 5', '...', '[[', 'SEQUENCE', ' ', '']


def comment(r, b):
    w = ' '.join(r.choice(WORDS) for _ in range(r.choice((0, 1, 3))))
    c = r.random()
    if c < 0.35:
        return '--' + w + r.choice(('\n', '\n', '\r\n', '\n\n', '\r', '\f', '\v'))
    if c < 0.6:
        return '--' + w + ('' if not w.endswith('-') else ' ') + '--'
    if c < 0.85:
        return '/*' + w + r.choice(('', '\n', ' -- ', '\n--\n', '*', ' / ')) + '*/'
    return '/* ' + w + ' /* ' + r.choice(WORDS) + ' */ ' + w + ' */'


def space(r):
    return ''.join(r.choice(' \n\t ') for _ in range(r.choice((1, 1, 2, 5)))) if r.random() < 0.85 else r.choice(('\r\n', '\r\n', '\r', '\f', '\v', ' \r '))


def spell(m, r, comments=0.15, tight=0.3, wide=0.3):
    out = ''
    if r.random() < 0.3:
        out = comment(r, '') if r.random() < 0.7 else space(r)
    prev = None
    for x in text.module_tokens(m):
        if x == '\n':
            continue
        if prev is not None:
            c = r.random()
            if c < comments:
                s = r.choice(('', ' ', '\n')) + comment(r, x) + r.choice(('', ' ', '\n'))
                if r.random() < 0.2:
                    s += comment(r, x)
            elif c < comments + tight and glue(prev, x):
                s = ''
            elif c < comments + tight + wide:
                s = space(r)
            else:
                s = ' '
            out += s
        if x[0] == "'" and len(x) > 4 and r.random() < 0.2:
            i = r.randrange(1, len(x) - 2)
            x = x[:i] + r.choice((' ', '\n', '  ')) + x[i:]
        out += x
        prev = x
    return out + r.choice(('', '\n', ' \n', '\n-- end\n', '-- end', '/* end */\n'))


def broken(m, r):
    """A text that is not a module in the supported notation, usually close to m."""
    toks = text.module_tokens(m)
    c = r.random()
    if c < 0.35:
        n = r.randrange(1, max(2, len(toks) - 1))
        return ' '.join(toks[:n])
    if c < 0.6:
        i = r.randrange(len(toks))
        toks = toks[:i] + [r.choice(('}', '{', ')', '::=', '??', 'SET', '...', '[['))] + toks[i:]
        return ' '.join(toks)
    if c < 0.8:
        return text.plain(m).replace('END', r.choice(('Zz ::= NULL\nEND', 'Zz ::= SEQUENCE { a Nowhere DEFAULT 5 }\nEND', 'zz Nowhere ::= 5\nEND')))
    return r.choice(('', 'M', 'garbage', text.plain(m).replace('BEGIN', 'BEGIN IMPORTS X FROM Y;')))


# ------------------------------------------------------------------ cases
def generate(kind, r, ctx):
    small = kind in ('files', 'bare')
    kw = dict(depth=1) if small else dict(depth=r.choice((1, 2, 2, 3)), consts=r.choice((0, 0.3, 0.9)))
    ms = [gentext.make(r, ctx.get('extra', ()), **kw)[0]]
    if kind == 'bare':
        for _ in range(200):
            if len(text.module_tokens(ms[0])) < 24:
                break
            ms = [gentext.make(r, (), depth=1, inline=r.choice((0.1, 0.9)), **{})[0]]
        else:
            return None
    if kind == 'history' or kind == 'files':
        for _ in range(r.choice((1, 2, 3))):
            m = gentext.make(r, (), depth=r.choice((1, 2)))[0]
            if r.random() < 0.7:
                m = rename(m, ms[0], r)
            if r.random() < 0.25:
                m = shadow(r.choice((m, ms[0])), r)
            ms.append(m)
    return {'ms': ms, 'seed': r.getrandbits(32)}


def shadow(m, r):
    """m with further definitions: constants named like the items that m has as DEFAULT values, and any number of others."""
    defs = list(m['defs'])
    taken = {d[1] for d in defs}
    new = []

    def look(x):
        if isinstance(x, dict):
            if x.get('o') == 'd' and isinstance(x.get('d'), str) and 'ref' in x['t'] and x['d'] not in taken and \
                    text.resolve(m, x['t'])['k'] == 'enum':
                taken.add(x['d'])
                new.append(['value', x['d'], x['t'], x['d'], r.randrange(12)])
            for v in x.values():
                look(v)
        elif isinstance(x, list):
            for v in x:
                look(v)
    look(defs)
    named = [d[1] for d in defs if d[0] == 'type' and text.resolve(m, {'ref': d[1]})['k'] == 'bool']
    for i in range(r.choice((0, 3, 12, 30))):
        if r.random() < 0.3:
            defs.append(['type', 'Pad%d' % i, {'k': 'bool', 'how': 0}])
            named.append('Pad%d' % i)
        elif named and r.random() < 0.8:
            new.append(['value', 'pad%d' % i, {'ref': r.choice(named)}, r.random() < 0.5, 0])
        else:
            new.append(['value', 'pad%d' % i, {'k': 'int', 'lb': None, 'ub': None, 'ext': False, 'how': 0}, i, 0])
    return dict(m, defs=defs + new)


def rename(m, other, r):
    """m with names of `other` for its own types and values: the same names, other meanings."""
    out = {}
    for what in ('type', 'value'):
        mine = [d[1] for d in m['defs'] if d[0] == what]
        theirs = [d[1] for d in other['defs'] if d[0] == what]
        r.shuffle(theirs)
        taken = set(mine)
        for a, b in zip(mine, theirs):
            if b not in taken and b not in out.values():
                out[a] = b

    def sub(x):
        if isinstance(x, dict):
            if set(x) == {'ref'}:
                return {'ref': out.get(x['ref'], x['ref'])}
            if set(x) == {'c'}:
                return {'c': out.get(x['c'], x['c'])}
            return {k: sub(v) for k, v in x.items()}
        if isinstance(x, list):
            return [sub(v) for v in x]
        return x
    defs = [[d[0], out.get(d[1], d[1])] + sub(d[2:]) for d in m['defs']]
    if len({d[1] for d in defs}) != len(defs):
        return m
    return dict(m, name=other['name'], defs=defs)


def twin(src, r):
    """src with one number or name changed a little; as long as before."""
    toks = [m for m in re.finditer(r"[A-Za-z0-9][A-Za-z0-9-]*", src) if m.start() > src.index('BEGIN') + 4 and not m.group().isupper()]
    if not toks:
        return src
    nums = [m for m in toks if m.group().isdigit()]
    m = r.choice(nums if nums and r.random() < 0.8 else toks)
    i = r.randrange(m.start(), m.end())
    c = src[i]
    pool = '123456789' if c.isdigit() else 'abcdefghij' if c.islower() else 'ABCDEFG' if c.isupper() else '-'
    return src[:i] + r.choice(pool) + src[i + 1:]


def differ(want, got, src, plain):
    if want[0] == 'ok' and got[0] == 'ok':
        a, b = want[1].splitlines(), got[1].splitlines()
        for i in range(max(len(a), len(b))):
            x, y = (a + [None] * 9999)[i], (b + [None] * 9999)[i]
            if x != y:
                return 'line %d of the code is %r, expected %r' % (i + 1, y, x)
    return '%s, expected %s' % (str(got)[:200], str(want)[:200])


def run(case, obs):
    zygote.start(answer)
    r = random.Random(case['seed'])
    return {'layout': run_layout, 'history': run_history, 'files': run_files, 'bare': run_bare}[case['kind']](case['ms'], r, obs)


def run_layout(ms, r, obs):
    plain = text.plain(ms[0])
    want = zygote.ask(plain)
    if want[0] != 'ok':
        if want[0] == 'deep':
            obs.event('too deep for the parser')
            return None
        return 'parse: %s\n%s' % (want, plain)
    for style in ((0, 0, 0.6), (0, 0.9, 0.05), (0.15, 0.3, 0.3), (0.5, 0.2, 0.2)):
        src = spell(ms[0], r, *style)
        got = answer(src)
        if got != want:
            return 'layout: %s\n--- with spelling\n%s\n--- plain\n%s' % (differ(want, got, src, plain), src, plain)
        obs.event('layouts compared')
        obs.state('separators', tuple(sorted(set(c for c in src if not c.isalnum()))), src.count('--') > 0, src.count('/*') > 0)
    return None


def run_history(ms, r, obs):
    wants = {}
    first = {}
    log = []
    for step in range(r.choice((3, 5, 8))):
        i = r.randrange(len(ms))
        c = r.random()
        if c < 0.4:
            src = broken(ms[i], r)
        elif c < 0.55:
            src = spell(ms[i], r)
        elif c < 0.7:
            src = twin(text.plain(ms[i]), r)
        else:
            src = text.plain(ms[i])
        if src not in wants:
            wants[src] = zygote.ask(src)
        want = wants[src]
        got = answer(src)
        log.append(got[0])
        if 'deep' in (got[0], want[0]):
            obs.event('too deep for the parser')
            continue
        if got != want:
            return 'history: call %d after %s: %s\n%s' % (step + 1, log[:-1], differ(want, got, src, src), src)
        obs.event('histories compared')
        if got[0] == 'exc':
            obs.event('failed parses')
            obs.state('failures', got[1], src[:40] == '', len(src))
        elif c < 0.4:
            obs.event('odd texts accepted')
        elif 0.55 <= c < 0.7:
            obs.event('twins compared')
        elif i in first and first[i] != got:
            return 'repeat: module %d parsed differently: %s\n%s' % (i, differ(first[i], got, src, src), src)
        else:
            first[i] = got
    obs.state('histories', tuple(log))
    return None


def snapshot(d):
    out = {}
    for p, dirs, files in os.walk(d):
        for f in files:
            q = os.path.join(p, f)
            with open(q, 'rb') as h:
                out[os.path.relpath(q, d)] = h.read()
        for f in dirs:
            out[os.path.relpath(os.path.join(p, f), d) + '/'] = None
    return out


def run_files(ms, r, obs):
    top = tempfile.mkdtemp(prefix='verif-c12-')
    cwd = os.getcwd()
    try:
        out = os.path.join(top, r.choice(('out', 'out put', 'o.d')))
        os.makedirs(os.path.join(out, 'sub'))
        here = os.path.join(top, 'cwd')
        os.makedirs(here)
        names = {m['name'] for m in ms}
        for n in ['Other.py', 'Mod', 'notes.txt', 'Mod.pyc', os.path.join('sub', 'Mod.py')] + [n + '.py' for n in names if r.random() < 0.4]:
            with open(os.path.join(out, n), 'w') as f:
                f.write('# was here before\n' * r.choice((1, 1, 3000)))
        for m in ms:
            if r.random() < 0.4:      # what an earlier run may have left
                old = zygote.ask(twin(text.plain(m), r) if r.random() < 0.7 else text.plain(m))
                if old[0] == 'ok':
                    with open(os.path.join(out, m['name'] + '.py'), 'w') as f:
                        f.write(r.choice((old[1], old[1], old[1] + '# mine\n', old[1][:-40], old[1].upper())))
        os.chdir(here)
        arg = out if r.random() < 0.7 else os.path.relpath(out, here)
        for m in [r.choice(ms) for _ in range(4)]:
            src = spell(m, r) if r.random() < 0.5 else text.plain(m)
            if r.random() < 0.3:
                src = twin(text.plain(m), r)
            fail = r.random() < 0.25
            if fail:
                src = broken(m, r)
            want = zygote.ask(src)
            if want[0] == 'deep':
                continue
            before = snapshot(top)
            try:
                parse_asn1_schema(src, arg + r.choice(('', os.sep)))
                got = ('ok',)
            except Exception as e:
                got = ('exc', type(e).__name__)
            after = snapshot(top)
            exp = dict(before)
            if want[0] == 'ok':
                exp[os.path.join(os.path.relpath(out, top), m['name'] + '.py')] = want[1].encode()
            elif want != got:
                return 'files: %s, expected %s\n%s' % (got, want, src)
            if got[0] != want[0]:
                return 'files: %s, expected %s\n%s' % (got, want[0], src)
            if want[0] == 'exc':
                # a call that fails writes nothing
                obs.event('failed parses with a folder')
            if after != exp:
                bad = sorted(k for k in set(after) | set(exp) if after.get(k, 0) != exp.get(k, 0))
                return 'files: %s differ from what was expected (%s)\n%s' % (
                    bad, [(len(after[k] or '') if k in after else 'missing', len(exp[k] or '') if k in exp else 'not expected') for k in bad], src)
            obs.event('files compared')
        obs.state('folder', arg == out, sorted(names))
        return None
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


BARE = '''import sys, json
from asn1PERser import parse_asn1_schema
for src in json.load(sys.stdin):
    try:
        a = ['ok', parse_asn1_schema(src)]
    except RecursionError:
        a = ['deep']
    except Exception as e:
        a = ['exc', type(e).__name__]
    print(json.dumps(a), flush=True)
'''


def run_bare(ms, r, obs):
    """The same in a fresh interpreter, without memoisation and with another hash seed."""
    srcs = [text.plain(ms[0]), spell(ms[0], r)]
    env = dict(os.environ, PYTHONHASHSEED=str(r.randrange(1, 99999)))
    p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', BARE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
    try:
        try:
            o, _ = p.communicate(json.dumps(srcs), timeout=18)
        except subprocess.TimeoutExpired:
            obs.event('too slow without memoisation')
            p.kill()
            o, _ = p.communicate()
    finally:
        p.kill()
        p.wait()
    for src, line in zip(srcs, o.splitlines()):
        got = tuple(json.loads(line))
        want = zygote.ask(src)
        if got != want:
            return 'bare: %s\n%s' % (differ(want, got, src, src), src)
        obs.event('without memoisation')
    return None


# ------------------------------------------------------------------ shrinking
def shrink(case):
    from checks import c11
    ms = case['ms']
    for i in range(1, len(ms)):
        yield dict(case, ms=ms[:i] + ms[i + 1:])
    for i in range(len(ms)):
        for c in c11.shrink({'m': ms[i]}):
            for s in range(3):
                yield dict(case, ms=ms[:i] + [c['m']] + ms[i + 1:], seed=case['seed'] + s)
