#!/usr/bin/env python3
"""Which std method contracts assumed in contracts/00_vx.rs have a verified reference in contracts/05_rf.rs.

references() -> (list of assumed contracts with an equal reference contract, list of those without one)
The contract text is compared clause by clause after the names are brought in line: the receiver (self here, a parameter
there), the iterator type, and, for a contract given by a trait, the spec function of the trait that the clause calls.
"""
import os, re

V = os.path.dirname(os.path.abspath(__file__))

def strip(t):
    return '\n'.join(l for l in t.split('\n') if not l.strip().startswith('//'))

def block(t, i):
    """end of the brace block that opens at or after i"""
    i = t.index('{', i)
    d = 0
    for j in range(i, len(t)):
        d += (t[j] == '{') - (t[j] == '}')
        if d == 0: return j + 1

def body_start(t, i):
    """where the body of the fn whose head starts at i begins: the first { at the start of a line or after the signature"""
    d = 0
    j = t.index('(', i)
    while True:
        c = t[j]
        if c in '([': d += 1
        if c in ')]': d -= 1
        if c == '{' and d == 0:
            e = block(t, j)
            rest = t[e:].lstrip()
            if not rest.startswith((',', '&&', '||', '==', '{')) and not re.match(r'(match|if|else)\b[^\n]*$', t[:j].split('\n')[-1].strip()) and not t[:j].rstrip().endswith('else'): return j
            j = e; continue
        if c == ';' and d == 0: return j
        j += 1

def clauses(head):
    """{'requires': text, 'ensures': text} of a function head"""
    out = {'requires': '', 'ensures': ''}
    parts = re.split(r'\b(requires|ensures|decreases)\b', head)
    for k, v in zip(parts[1::2], parts[2::2]):
        if k in out: out[k] = re.sub(r'\s+', ' ', v).strip().rstrip(',').strip()
    return out

def functions(t, a, b, self_of=None):
    """(name, head, attributes) of the functions between a and b"""
    out = []
    for m in re.finditer(r'(?m)^[ \t]*((?:#\[[^\]]*\]\s*)*)((?:pub )?fn (\w+))', t[a:b]):
        s = a + m.start(2)
        e = body_start(t, s)
        out.append((m.group(3), t[s:e], m.group(1)))
    return out

def impls(t):
    """(header, begin, end) of the impl and trait blocks, and ('', ..) for the functions outside them"""
    return [(m.group(0), m.end(), block(t, m.start())) for m in re.finditer(r'(?m)^(?:pub )?(?:impl|trait)\b[^{]*', t)]

# assumed contract -> reference, and how the names of the assumed clause read in the reference
PAIRS = {
    ('VxCollect<T> for Vec<T>', 'vx_from'): ('collect_vec', {'it': 'self'}),
    ('VxCollect<usize> for HashSet<usize>', 'vx_from'): ('collect_set', {}),
    ('VxInto for Vec<T>', 'vx_into_iter'): ('vec_into_iter', {'SELF': 'v'}),
    ("VxInto for &'a Vec<T>", 'vx_into_iter'): ('slice_iter', {'SELF': 'v'}),
    ("VxInto for &'a [T]", 'vx_into_iter'): ('slice_iter', {'SELF': 'v'}),
    ("VxIter<'a> for &'a Vec<T>", 'vx_iter'): ('slice_iter', {'SELF': 'v'}),
    ("VxIter<'a> for &'a [T]", 'vx_iter'): ('slice_iter', {'SELF': 'v'}),
    ("VxIter<'a> for &'a HashMap<usize, usize>", 'vx_iter'): ('map_iter', {'SELF': 'm'}),
    ('VxContains<usize> for Vec<usize>', 'vx_contains'): ('contains', {'SELF': 'v'}),
    ('VxContains<usize> for [usize]', 'vx_contains'): ('contains', {'SELF': 'v'}),
    ('VxContains<(usize, usize)> for Vec<(usize, usize)>', 'vx_contains'): ('contains_pair', {'SELF': 'v'}),
    ('VxSlice<T> for Vec<T>', 'vx_to_vec'): ('to_vec', {'SELF': 'v'}),
    ('VxSlice<T> for [T]', 'vx_to_vec'): ('to_vec', {'SELF': 'v'}),
    ('VxVec<T> for Vec<T>', 'vx_reverse'): ('reverse', {'SELF': 'v'}),
    ('VxVec<T> for Vec<T>', 'vx_rotate_right'): ('rotate_right', {'SELF': 'v'}),
    ('VxVec<T> for Vec<T>', 'vx_rotate_left'): ('rotate_left', {'SELF': 'v'}),
    ('VxRetain<T> for Vec<T>', 'vx_retain'): ('retain', {'SELF': 'v'}),
    ('VxRetain<T> for VecDeque<T>', 'vx_retain'): ('retain', {'SELF': 'v'}),
    ("VxExtend<SeqIter<'a, &'a usize>> for Vec<usize>", 'vx_extend'): ('extend_refs', {'SELF': 'old(v)', 'o': 'final(v)'}),
    ("VxExtend<SeqIter<'a, usize>> for Vec<usize>", 'vx_extend'): ('extend', {'SELF': 'old(v)', 'o': 'final(v)'}),
    ('VxExtend<Vec<usize>> for Vec<usize>', 'vx_extend'): ('extend_vec', {'SELF': 'old(v)', 'o': 'final(v)'}),
    ("SeqIter<'a, &'a T>", 'cloned'): ('cloned', {'SELF': 'it'}),
    ("SeqIter<'a, &'a T>", 'copied'): ('cloned', {'SELF': 'it'}),
}

def norm(x): return re.sub(r'\s+', ' ', x.replace('SeqIter', 'RefIter').replace("<'a, ", '<')).strip()

def sub(x, m):
    for a, b in m.items():
        x = re.sub(r'(?<![\w.])%s\b(?!\()' % a if a != 'SELF' else r'\bself\b', b, x)
    return x

def spec_bodies(t, a, b):
    out = {}
    for m in re.finditer(r'open spec fn (\w+)\(([^)]*)\)[^{]*\{', t[a:b]):
        e = block(t, a + m.end() - 1)
        out[m.group(1)] = ([p.split(':')[0].strip() for p in m.group(2).split(',')], t[a + m.end():e - 1].strip())
    return out

def expand(clause, specs):
    """the trait's clause with the impl's spec functions put in"""
    while True:
        m = next((m for m in re.finditer(r'((?:old|final)\(self\)|\bself|\br|\bSelf)(?:\.|::)(\w+)\(', clause) if m.group(2) in specs), None)
        if not m: return clause
        d, j, args, k = 1, m.end(), [], m.end()
        while d:
            c = clause[j]
            d += (c == '(') - (c == ')')
            if c == ',' and d == 1 or d == 0: args.append(clause[k:j].strip()); k = j + 1
            j += 1
        ps, body = specs[m.group(2)]
        ps = [p.lstrip('&') for p in ps]
        mp = dict(zip(ps, [m.group(1)] + [x for x in args if x]))
        body = re.sub(r'(?<![\w.])(%s)\b(?!\()' % '|'.join(mp), lambda q: mp[q.group(1)], body)
        clause = clause[:m.start()] + body + clause[j:]

def references():
    vx, rf = [strip(open(os.path.join(V, 'contracts', f)).read()) for f in ('00_vx.rs', '05_rf.rs')]
    ref = {}
    iv = impls(rf)
    for n, h, at in functions(rf, 0, len(rf)): ref.setdefault(n, []).append((clauses(h), at))
    blocks = impls(vx)
    traits = {re.search(r'trait (\w+)', h).group(1): (a, b) for h, a, b in blocks if 'trait' in h}
    have, lack = [], []
    for h, a, b in blocks:
        if 'trait' in h: continue
        head = re.sub(r'\s+', ' ', h).strip()
        who = re.sub(r"^impl(<[^>]*>)? ", '', head).strip()
        for n, fh, at in functions(vx, a, b):
            if 'external_body' not in at: continue
            c = clauses(fh)
            tr = re.match(r'(\w+)', who).group(1) if ' for ' in who else None
            if tr:
                ta, tb = traits[tr]
                c = next(clauses(x) for k, x, _ in functions(vx, ta, tb) if k == n)
                specs = spec_bodies(vx, a, b)
                c = {k: expand(x, specs) for k, x in c.items()}
            r, m = PAIRS.get((who, n), (n, {}))
            m = dict(m)
            ok = False
            for rc, rat in ref.get(r, []):
                if 'external' in rat: continue
                if all(same(norm(c[k]), norm(rc[k]), m) for k in ('requires', 'ensures')): ok = True
            (have if ok else lack).append('%s: %s' % (who, n))
            if os.environ.get('REFS_DEBUG') and not ok: print('---', who, n, r, '\n  vx:', {k: norm(x) for k, x in c.items()}, '\n  rf:', [{k: norm(x) for k, x in q.items()} for q, _ in ref.get(r, [])], m)
    return have, lack

def same(x, y, m):
    """whether clause x (assumed) reads as y (reference) under the renaming m; old/final of the receiver are its plain name where it is not changed"""
    if x == y: return True
    mm = dict(m)
    who = mm.pop('SELF', 'self')
    plain = who[4:-1] if who.startswith('old(') else who
    z = sub(x, {k: v for k, v in mm.items()})
    z = re.sub(r'\bold\(self\)', 'old(%s)' % plain, z)
    z = re.sub(r'\bfinal\(self\)', 'final(%s)' % plain, z)
    z = re.sub(r'\*final\(', 'final(', z)
    z = re.sub(r'\bself\b', who if who.startswith('old(') else plain, z)
    return norm(z) == y or norm(z).replace('old(%s)@ + ' % plain, 'old(%s)@ + ' % plain) == y

if __name__ == '__main__':
    h, l = references()
    print('%d assumed std contracts have a verified reference with the same clauses' % len(h))
    for x in l: print('  no reference: ' + x)
