"""Runs one check: fans cases out over worker processes, collects what the monitors observed, shrinks and
writes a witness, writes the evidence file, prints the verdict.

A check module has
  ID, RULE
  PLAN = {'quick': {kind: n}, 'thorough': {kind: n}}
  generate(kind, rnd, ctx) -> case        (JSON-able after ir.to_json; no library code involved)
  run(case, obs) -> None | 'what is wrong' (drives the real library, judges what it observes)
  shrink(case) -> iterable of smaller cases         (optional)
  PROBES = {slug: function() -> None | what}        (optional; fixed inputs of known findings)
  NEED = {event: minimum}                           (optional; fewer observations = inconclusive)
"""
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
from . import ir

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPU_SECONDS = 150
WALL_SECONDS = 240
SOFT_DEADLINE = float(os.environ.get('VERIF_DEADLINE', '560'))


class Hang(BaseException):
    pass


class Waits(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


def _alarm_wall(sig, frame):
    raise Waits()


class Obs(object):
    """What the monitors of one chunk saw."""

    def __init__(self):
        self.events = collections.Counter()
        self.states = collections.defaultdict(set)

    def event(self, name, n=1):
        self.events[name] += n

    def state(self, family, *key):
        s = self.states[family]
        if len(s) < 200000:
            s.add(hash8(key))


def hash8(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'big')


class Cover(object):
    """Lines of the library executed in this process (sys.monitoring; each location reports once)."""

    def __init__(self):
        self.lines = set()
        self.on = False

    def start(self):
        if self.on or not hasattr(sys, 'monitoring'):
            return
        self.on = True
        m = sys.monitoring
        pre = os.path.join(REPO, 'asn1PERser') + os.sep
        n = len(pre)

        def line(code, no):
            f = code.co_filename
            if f.startswith(pre):
                self.lines.add((f[n:], no))
            return m.DISABLE
        try:
            m.use_tool_id(4, 'verif-cover')
            m.register_callback(4, m.events.LINE, line)
            m.set_events(4, m.events.LINE)
        except ValueError:
            self.on = False


COVER = Cover()


def from_library(e):
    """Did library code (or pyasn1 / pyparsing called by it) take part in raising e?"""
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(REPO + os.sep) or 'site-packages' in f.filename:
            return True
        if f.filename.startswith('<generated'):
            return True
    return False


def guarded(mod, case, obs, again=True):
    """Run one case. Returns None | ('violation', what) | ('harness', trace).
    Non-termination is judged on processor time of this process (no case needs a twentieth of it), so that a
    loaded machine raises no alarm; the wall clock only catches a case that waits for ever, and is asked twice."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm_wall)
    signal.setitimer(signal.ITIMER_PROF, CPU_SECONDS)
    signal.setitimer(signal.ITIMER_REAL, WALL_SECONDS)
    try:
        what = mod.run(case, obs)
        off()
        return ('violation', what) if what else None
    except Hang:
        off()
        return ('violation', 'does not terminate: %d s of processor time' % CPU_SECONDS)
    except Waits:
        off()
        if again:
            return guarded(mod, case, obs, False)
        return ('violation', 'does not return: waited %d s, twice' % WALL_SECONDS)
    except Exception as e:
        off()
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if from_library(e):
            return ('violation', 'unexpected exception %s: %s\n%s' % (type(e).__name__, str(e)[:300], tb[-1500:]))
        if isinstance(e, (OSError, MemoryError, ImportError, EOFError)):
            return ('harness', tb)
        # the monitors never meet this on a tree where the property holds: what the library returned makes no sense to them
        return ('violation', 'unreadable result: monitor stopped with %s: %s\n%s' % (type(e).__name__, str(e)[:300], tb[-1500:]))
    finally:
        off()


def off():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def case_random(seed, cid, kind, i):
    return random.Random('%s/%s/%s/%d' % (seed, cid, kind, i))


def worker_init(modname):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    COVER.start()
    importlib.import_module(modname)


def chunk(modname, seed, kind, lo, hi, ctx):
    mod = importlib.import_module(modname)
    obs = Obs()
    seen = set()
    out = {'n': 0, 'bad': [], 'harness': [], 'samples': [], 'cpu': (0, '', 0)}
    for i in range(lo, hi):
        case = mod.generate(kind, case_random(seed, mod.ID, kind, i), ctx)
        if case is None:
            continue
        case['kind'] = kind
        out['n'] += 1
        c0 = time.process_time()
        r = guarded(mod, case, obs)
        out['cpu'] = max(out['cpu'], (round(time.process_time() - c0, 2), kind, i))
        if getattr(mod, 'nontrivial', lambda c: True)(case):
            seen.add(hash8(ir.to_json(case)))
        if i == lo and lo % 7 == 0:
            j = ir.to_json(case)
            if len(repr(j)) < 6000:
                out['samples'].append(j)
        if r is None:
            continue
        if r[0] == 'violation':
            out['bad'].append((i, ir.to_json(case), r[1]))
            if len(out['bad']) >= 3 or endless(r[1]):
                break
        else:
            out['harness'].append((i, r[1]))
            break
    out['events'] = dict(obs.events)
    out['states'] = {k: v for k, v in obs.states.items()}
    out['seen'] = seen
    out['lines'] = set(COVER.lines)
    return out


def endless(what):
    return what.startswith('does not ')


def shrink(mod, case, what, seconds=40, tries=1500):
    if not hasattr(mod, 'shrink') or endless(what):
        return case, what
    end = time.time() + seconds
    again = True
    while again and time.time() < end and tries > 0:
        again = False
        for c in mod.shrink(case):
            if time.time() > end or tries <= 0:
                break
            tries -= 1
            c['kind'] = case['kind']
            r = guarded(mod, c, Obs())
            if r and r[0] == 'violation' and sort_of(r[1]) == sort_of(what):
                case, what, again = c, r[1], True
                break
    return case, what


def sort_of(what):
    return what.split(':')[0][:60]


def known():
    """KNOWN_FINDINGS.txt lines 'known: property=<id> id=<slug> <text>' -> {(id, slug): text}."""
    out = {}
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            if line.startswith('known:'):
                w = line[6:].split(None, 2)
                out[(w[0].split('=', 1)[1], w[1].split('=', 1)[1])] = w[2].strip()
    return out


def write_replay(mod, n, case, what, extra):
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (mod.ID, n))
    with open(p, 'w') as f:
        json.dump({'property': mod.ID, 'case': ir.to_json(case), 'what': what, 'found': extra}, f, indent=1)
    return p


def library_lines():
    """Executable lines of the library per file (code objects' line tables)."""
    out = {}
    base = os.path.join(REPO, 'asn1PERser')
    for d, dirs, files in os.walk(base):
        dirs[:] = [x for x in dirs if x not in ('test', '__pycache__')]
        for f in files:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                try:
                    todo = [compile(open(p, encoding='utf-8').read(), p, 'exec')]
                except SyntaxError:
                    continue
                lines = set()
                while todo:
                    c = todo.pop()
                    lines |= {l for _, _, l in c.co_lines() if l}
                    todo += [k for k in c.co_consts if hasattr(k, 'co_lines')]
                out[p[len(base) + 1:]] = lines
    return out


def main(modname, argv):
    mod = importlib.import_module(modname)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--thorough' in argv:
        tier = 'thorough'
    if '--replay' in argv:
        p = argv[argv.index('--replay') + 1]
        d = json.load(open(p))
        case = ir.from_json(d['case'])
        if 'probe' in case:
            what = mod.PROBES[case['probe']]()
            r = ('violation', what) if what else None
        else:
            r = guarded(mod, case, Obs())
        print(r or 'held')
        if r and r[0] == 'violation':
            print('VIOLATION property=%s replay=%s' % (mod.ID, p))
            return 1
        return 0 if r is None else 3
    t0 = time.time()
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    plan = {k: max(1, int(n * scale)) for k, n in mod.PLAN[tier].items()}
    ctx = mod.context(tier) if hasattr(mod, 'context') else {}
    jobs = []
    for kind, n in plan.items():
        size = max(1, min(getattr(mod, 'CHUNK', 100), (n + 15) // 16))
        jobs += [(kind, lo, min(n, lo + size)) for lo in range(0, n, size)]
    # interleave the kinds, so that a run cut short has seen all of them
    jobs.sort(key=lambda j: (j[1] / float(plan[j[0]]), j[0]))
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    total = collections.Counter()
    events = collections.Counter()
    states = collections.defaultdict(set)
    seen, samples, bad, harness, lines = set(), [], [], [], set()
    cut = False
    cpu = (0, '', 0)
    nworkers = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    with ProcessPoolExecutor(nworkers, initializer=worker_init, initargs=(modname,)) as ex:
        pending = set()
        it = iter(jobs)
        more = True
        while more or pending:
            while more and len(pending) < nworkers * 2:
                try:
                    kind, lo, hi = next(it)
                except StopIteration:
                    more = False
                    break
                pending.add(ex.submit(chunk, modname, seed, kind, lo, hi, ctx))
            if not pending:
                break
            done, pending = wait(pending, return_when=FIRST_COMPLETED)
            for f in done:
                r = f.result()
                total['cases'] += r['n']
                cpu = max(cpu, r['cpu'])
                events.update(r['events'])
                for k, v in r['states'].items():
                    states[k] |= v
                seen |= r['seen']
                lines |= r['lines']
                if len(samples) < 4:
                    samples += r['samples']
                bad += r['bad']
                harness += r['harness']
            if len(bad) >= 1 or harness:
                more = False
            if time.time() - t0 > SOFT_DEADLINE and more:
                more = False
                cut = True
    code = 0
    # probes of known findings
    listed = known()
    suppressed = 0
    for slug, fn in sorted(getattr(mod, 'PROBES', {}).items()):
        try:
            what = fn()
        except Exception as e:
            what = 'exception %s: %s' % (type(e).__name__, str(e)[:200])
        events['probe ' + slug] += 1
        if what:
            if (mod.ID, slug) in listed:
                suppressed += 1
                print('KNOWN-FINDING: property=%s %s' % (mod.ID, listed[(mod.ID, slug)]))
            else:
                bad.append((-1, {'probe': slug, 'kind': 'probe'}, 'probe %s: %s' % (slug, what)))
    if harness:
        print('HARNESS ERROR (case %s)\n%s' % harness[0])
        code = 2
    if bad:
        code = 1
        bad.sort(key=lambda b: (endless(b[2]), len(json.dumps(b[1]))))
        i, case, what = bad[0]
        case = ir.from_json(case)
        if 'probe' not in case:
            try:
                case, what = shrink(mod, case, what)
            except Exception:
                print('could not shrink: ' + traceback.format_exc()[-300:])
        path = write_replay(mod, 1, case, what, {'seed': seed, 'tier': tier, 'index': i})
        print(what[:2000])
        print('case: ' + json.dumps(ir.to_json(case))[:3000])
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
    short = {k: n for k, n in getattr(mod, 'NEED', {}).items() if events[k] < n * min(1.0, scale)}
    if code == 0 and (short or not total['cases']):
        print('INCONCLUSIVE: observed %s' % {k: events[k] for k in short})
        code = 3
    allx = library_lines()
    cov = {f: [len({l for g, l in lines if g == f} & ls), len(ls)] for f, ls in sorted(allx.items())
           if f.startswith(('codec', 'classes/data')) and ls}
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2),
          'violations': len(bad),
          'coverage': {'evaluations': total['cases'], 'distinct_nontrivial': len(seen), 'rule': mod.RULE,
                       'samples': samples[:4] or ['none'],
                       'planned': plan, 'cut_short': cut, 'longest_case_cpu_s': cpu,
                       'events_observed': dict(sorted(events.items())),
                       'distinct_states': {k: len(v) for k, v in sorted(states.items())},
                       'codec_lines_executed_of': cov,
                       'known_findings_reproduced': suppressed},
          'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', '.%s.%d' % (mod.ID, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, 'evidence', mod.ID + '.json'))
    print('%s %s seed=%d: %d cases, %d distinct, %.1f s, %s' % (
        mod.ID, tier, seed, total['cases'], len(seen), time.time() - t0,
        {0: 'held on everything observed', 1: 'VIOLATED', 2: 'harness error', 3: 'inconclusive'}[code]))
    return code
