"""Schema IR: a small, library-independent description of ASN.1 types and values.

A type is a dict {'k': kind, ...} so that it can be written to a replay file as JSON:

  bool
  int   lb, ub (None = MIN / MAX), ext
  enum  root [names], ext, adds [names]
  bits  lb, ub, ext        (lb/ub None = no size constraint; ub None with lb = MAX)
  octs  lb, ub, ext
  seqof elem, lb, ub, ext
  seq   root [field], ext, adds [field], groups [[field]]
  choice root [alt], ext, adds [alt], groups [[alt]]

field = {'n': name, 't': type, 'o': 'm' | 'o' | 'd', 'd': default value}
alt   = {'n': name, 't': type}

Values are plain Python: bool, int, name, '0101' strings, bytes, list, dict, (name, value).
In JSON, bytes are {'__b__': hex} and choice values {'__c__': [name, value]}.
"""


def to_json(v):
    if isinstance(v, bytes):
        return {'__b__': v.hex()}
    if isinstance(v, tuple):
        return {'__c__': [v[0], to_json(v[1])]}
    if isinstance(v, list):
        return [to_json(x) for x in v]
    if isinstance(v, dict):
        return {k: to_json(x) for k, x in v.items()}
    if isinstance(v, int) and abs(v) >> 8000:       # Python refuses to print integers of more than 4300 digits
        return {'__i__': hex(v)}
    return v


def from_json(v):
    if isinstance(v, dict):
        if '__b__' in v:
            return bytes.fromhex(v['__b__'])
        if '__i__' in v:
            return int(v['__i__'], 16)
        if '__c__' in v:
            return (v['__c__'][0], from_json(v['__c__'][1]))
        return {k: from_json(x) for k, x in v.items()}
    if isinstance(v, list):
        return [from_json(x) for x in v]
    return v


def alts(t):
    """All alternatives / fields of a choice / sequence, in declaration order."""
    out = list(t['root']) + list(t.get('adds', []))
    for g in t.get('groups', []):
        out += g
    return out


def ext_alts(t):
    out = list(t.get('adds', []))
    for g in t.get('groups', []):
        out += g
    return out


def walk(t):
    yield t
    if t['k'] == 'seqof':
        yield from walk(t['elem'])
    elif t['k'] in ('seq', 'choice'):
        for f in alts(t):
            yield from walk(f['t'])


def complete(t, v):
    """Normal form: every DEFAULT component spelled out (a receiver reads the default)."""
    k = t['k']
    if k == 'seqof':
        return [complete(t['elem'], x) for x in v]
    if k == 'choice':
        for a in alts(t):
            if a['n'] == v[0]:
                return (v[0], complete(a['t'], v[1]))
        raise KeyError(v[0])
    if k == 'seq':
        out = {}
        for f in alts(t):
            if f['n'] in v:
                out[f['n']] = complete(f['t'], v[f['n']])
            elif f['o'] == 'd':
                out[f['n']] = f['d']
        return out
    return v


def in_root(t, n):
    return (t['lb'] is None or n >= t['lb']) and (t['ub'] is None or n <= t['ub'])


def size_of(t, v):
    return len(v)


def valid(t, v):
    """Does v belong to type t (all constraints, recursively)?"""
    k = t['k']
    if k == 'bool':
        return isinstance(v, bool)
    if k == 'int':
        return t['ext'] or in_root(t, v)
    if k == 'enum':
        return v in t['root'] or v in t['adds']
    if k in ('bits', 'octs'):
        return t['ext'] or in_root(t, len(v))
    if k == 'seqof':
        return (t['ext'] or in_root(t, len(v))) and all(valid(t['elem'], x) for x in v)
    if k == 'choice':
        return any(a['n'] == v[0] and valid(a['t'], v[1]) for a in alts(t))
    for f in t['root']:
        if f['o'] == 'm' and f['n'] not in v:
            return False
    for f in alts(t):
        if f['n'] in v and not valid(f['t'], v[f['n']]):
            return False
    return True


def explicit(t, v):
    """v with every DEFAULT component spelled out that a sender could send (no addition after a missing mandatory one)."""
    k = t['k']
    if k == 'seqof':
        return [explicit(t['elem'], x) for x in v]
    if k == 'choice':
        for a in alts(t):
            if a['n'] == v[0]:
                return (v[0], explicit(a['t'], v[1]))
    if k != 'seq':
        return v
    out = {f['n']: explicit(f['t'], v[f['n']]) for f in alts(t) if f['n'] in v}
    for f in t['root']:
        if f['o'] == 'd':
            out.setdefault(f['n'], f['d'])
    for f in t['adds']:
        if f['o'] == 'm' and f['n'] not in v:
            return out
        if f['o'] == 'd':
            out.setdefault(f['n'], f['d'])
    for g in t['groups']:
        if any(f['o'] == 'm' and f['n'] not in v for f in g):
            return out
        for f in g:
            if f['o'] == 'd':
                out.setdefault(f['n'], f['d'])
    return out


def sent(f, v):
    """Is component f of value v sent (present, and not just at its default)?"""
    return f['n'] in v and not (f['o'] == 'd' and v[f['n']] == f['d'])


def complete_message(t, v):
    """May a conforming sender send v as it is? True, False, or None where X.680 leaves it open
    (a group of mandatory and optional components missing before a group that is there)."""
    k = t['k']
    if k == 'seqof':
        return _all(complete_message(t['elem'], x) for x in v)
    if k == 'choice':
        if v is None:
            return False
        return _all(complete_message(a['t'], v[1]) for a in alts(t) if a['n'] == v[0])
    if k != 'seq':
        return v is not None
    res = [all(f['o'] != 'm' or f['n'] in v for f in t['root'])]
    # like fields are judged only where they are sent
    res += [complete_message(f['t'], v[f['n']]) for f in alts(t) if f['n'] in v]
    missing = False
    for f in t['adds']:
        if sent(f, v):
            if missing:
                res.append(False)
        elif f['o'] == 'm':
            missing = True
    for g in t['groups']:
        if any(sent(f, v) for f in g):
            if missing:
                res.append(False if missing is True else None)
            if any(f['o'] == 'm' and f['n'] not in v for f in g):
                res.append(False)
        elif all(f['o'] == 'm' for f in g):
            missing = True
        elif any(f['o'] == 'm' for f in g):
            missing = missing or 'open'
    return _all(res)


def _all(xs):
    xs = list(xs)
    return False if False in xs else None if None in xs else True


def has_value(t, v):
    """Was anything set in v? (components in which nothing was set count as not there)"""
    k = t['k']
    if v is None:
        return False
    if k == 'seqof':
        return not v or any(has_value(t['elem'], x) for x in v)
    if k == 'choice':
        return any(has_value(a['t'], v[1]) for a in alts(t) if a['n'] == v[0])
    if k == 'seq':
        return any(has_value(f['t'], v[f['n']]) for f in alts(t) if f['n'] in v) or all(f['o'] != 'm' for f in t['root'])
    return True


def set_only(t, v):
    """v without the components in which nothing was set."""
    k = t['k']
    if v is None:
        return None
    if k == 'seqof':
        return [set_only(t['elem'], x) for x in v]
    if k == 'choice':
        return (v[0], [set_only(a['t'], v[1]) for a in alts(t) if a['n'] == v[0]][0])
    if k == 'seq':
        return {f['n']: set_only(f['t'], v[f['n']]) for f in alts(t) if f['n'] in v and has_value(f['t'], v[f['n']])}
    return v
