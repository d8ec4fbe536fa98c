#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current source:
  1. extracts the whole crate into Verus input (extract/), contracts from contracts/*.vc
  2. Verus discharges every obligation of the functions the property rests on
  3. the harness (harness/) replays the property's executable reading on concrete inputs of the real crate,
     to find a failing input for a failed obligation and to exercise what the proof trusts
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: no answer (e.g. /repo does not build).
"""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from refs import references
REPO = '/repo'
BUILD = os.path.join(V, 'build')
T0 = time.time()
VERUS_ERRS_UNDECIDED = ('rlimit', 'Resource limit', 'not supported', 'unsupported', 'timeout', 'cannot find', 'could not determine')

def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
        for d in ('extract', 'harness'):
            p = sh(['cargo', 'build', '--offline', '--release', '--quiet'], cwd=os.path.join(V, d), env=dict(env, CARGO_TARGET_DIR=os.path.join(V, d, 'target')))
            if p.returncode:
                print('cannot build %s:\n%s' % (d, p.stderr[-3000:]))
                sys.exit(2)
    return os.path.join(V, 'extract/target/release/vx-extract'), os.path.join(V, 'harness/target/release/vxh')

def literals():
    """integer literals the crate's source mentions: inputs near them are tried"""
    s = set()
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if not f.endswith('.rs'): continue
            t = open(os.path.join(d, f), errors='replace').read()
            t = re.split(r'#\[cfg\(test\)\]', t)[0]
            t = re.sub(r'//[^\n]*', '', t)
            for x in re.findall(r'\b(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:usize|u64|u32|i64|i32|isize|u8|u16)?\b', t):
                try: v = int(x.replace('_', ''), 0)
                except ValueError: continue
                if 2 < v < 2**64: s.add(v)
            for a, b in re.findall(r'\b1(?:usize|u64)?\s*<<\s*(\d+)()', t):
                if int(a) < 64: s.add(1 << int(a))
    return sorted(s)[:60]

FN = re.compile(r'\s*(?:pub )?(?:broadcast )?(?:open spec |closed spec |uninterp spec |spec |proof |exec )?fn (\w+)')

class Verus:
    def __init__(self, ex, tmp, threads):
        self.tmp, self.threads = tmp, threads
        self.rs, self.js = os.path.join(tmp, 'gamma_vx.rs'), os.path.join(tmp, 'gamma_vx.json')
        self.base = os.path.join(V, 'contracts/baseline.json')
        self.ex = ex
        self.note = None
        self.meta = None
        self.skip = []
        self.extract()
    def cmd(self, rs, js):
        c = [self.ex, os.path.join(REPO, 'src'), os.path.join(V, 'contracts'), rs, js]
        if os.path.exists(self.base): c += ['--baseline', self.base]
        return c + [x for k in self.skip for x in ('--skip', k)]
    def extract(self):
        p = sh(self.cmd(self.rs, self.js))
        if p.returncode or not os.path.exists(self.js):
            self.note = 'extraction failed: ' + (p.stderr or p.stdout).strip()[-600:]
            return
        self.meta = json.load(open(self.js))
        self.src = open(self.rs).read().split('\n')
    def fn_at(self, line):
        for f in self.meta['functions']:
            if f['begin'] <= line < f['end']: return f['key']
        return None
    def run(self, extra=(), rs=None, limit=240):
        """-> (failed: {key: [messages]}, other: [messages], result json or None)"""
        rs = rs or self.rs
        cmd = ['verus', rs, '--triggers-mode', 'silent', '--error-format=json', '--output-json', '--time', '--multiple-errors', '3', '--num-threads', str(self.threads)] + list(extra)
        try: p = sh(cmd, timeout=limit, cwd=self.tmp)
        except subprocess.TimeoutExpired: return {}, [(None, 'the verifier did not finish within %d s' % limit)], None
        failed, other, rejected = {}, [], False
        for l in p.stderr.split('\n'):
            if not l.startswith('{'): continue
            d = json.loads(l)
            if d['level'] != 'error' or d['message'].startswith('aborting due to'): continue
            if d.get('code'): rejected = True  # rustc's own error, no proof obligation
            prim = [s for s in d['spans'] if s['is_primary']] or d['spans']
            mine = [s for s in d['spans'] if s['file_name'].endswith('gamma_vx.rs')]
            # the function whose body fails: where the failing exit, call or loop is, not where the contract stands
            keys = []
            for s in prim + mine:
                if s in mine:
                    k = self.fn_at(s['line_start'])
                    if k and k not in keys: keys.append(k)
            clause = [' '.join(t['text'][t['highlight_start'] - 1:t['highlight_end'] - 1] for t in s['text']) for s in mine if s.get('label') == 'failed this postcondition']
            msg = d['message'] + ''.join(': ' + c.strip() for c in clause) + ''.join('\n      %s:%d: %s%s' % (self.where(s['line_start']), s['line_start'], self.src[s['line_start'] - 1].strip()[:160], '  (%s)' % s['label'] if s.get('label') else '') for s in mine)
            body = self.body_key(d, mine, keys)
            if body: failed.setdefault(body, []).append(msg)
            else: other.append((next((f for f in (self.support_at(s['line_start']) for s in prim if s in mine) if f), None), msg))
        o = None
        try: o = json.loads(p.stdout)
        except Exception: other.append((None, 'the verifier gave no result: ' + p.stderr[-400:]))
        if o and ('verification-results' not in o or o['verification-results'].get('encountered-vir-error') or rejected):
            other.append((None, 'the verifier rejects the extracted source')); o = None
        return failed, other, o
    def where(self, line): return self.fn_at(line) or 'support'
    def support_at(self, line):
        a, b = self.meta['shim_lines']
        if not a <= line < b: return None
        mod = next((m.group(1) for i in range(line, a - 1, -1) if (m := re.match(r'pub mod (\w+) \{', self.src[i - 1]))), '')
        for i in range(line, a - 1, -1):
            m = FN.match(self.src[i - 1])
            if m: return ('rf::' if mod == 'rf' else '') + m.group(1)
        return None
    def without_clients(self):
        """the extracted file with the clients of module cl blanked out (line numbers kept)"""
        a = next((i for i, l in enumerate(self.src) if l.startswith('pub mod cl {')), None)
        if a is None: return None
        b = next(i for i in range(a, len(self.src)) if self.src[i].startswith('} // verus!')) + 1
        self.src = self.src[:a] + [''] * (b - a + 1) + self.src[b + 1:]
        open(self.rs, 'w').write('\n'.join(self.src))
        return self.rs
    def body_key(self, d, mine, keys):
        m = d['message']
        if 'precondition not satisfied' in m or 'recommendation' in m:
            # caller: the primary span
            for s in mine:
                if s['is_primary']: return self.fn_at(s['line_start'])
        if 'postcondition not satisfied' in m:
            for s in mine:
                if s.get('label') and ('at this exit' in s['label'] or 'at the end' in s['label']): return self.fn_at(s['line_start'])
        return keys[0] if keys else None

def client_text(src, name):
    """the source of one client"""
    a = next(i for i, l in enumerate(src) if (m := FN.match(l)) and m.group(1) == name)
    b = next(i for i in range(a + 1, len(src)) if src[i].startswith('}'))
    return src[a:b + 1]

def closure(meta, src, roots, cls=()):
    """functions reachable from roots and from the clients cls, by the names they call (an over-approximation guided by the types mentioned)"""
    fs = {f['key']: f for f in meta['functions']}
    by = {}
    def typ(k):
        p = k.split('::')[-2] if '::' in k else ''
        return re.sub(r'<.*', '', p.split('for')[-1]) if 'for' in p and '<' in p or p.startswith(('Graphfor', 'TryFrom')) else p
    types = {typ(k) for k in fs if typ(k)[:1].isupper()}
    for k in fs: by.setdefault(k.split('::')[-1], []).append(k)
    by['vx_try_from'] = by.get('try_from', [])
    def mentioned(k, text):
        m = {t for t in types if re.search(r'\b%s\b' % t, text)} | {typ(k)}
        for n in re.findall(r'(?<![\w.])([a-z_]\w*)\s*(?:::\s*<[^(]*>)?\s*\(', text):
            for c in by.get(n, []):
                if typ(c)[:1].islower() or not typ(c): m |= {t for t in types if re.search(r'\b%s\b' % t, fs[c]['sig'])}
        return m
    text_of = lambda k: '\n'.join(src[fs[k]['begin'] - 1:fs[k]['end'] - 1]) + ' ' + fs[k]['sig']
    seen, todo = set(), [r for r in roots if r in fs] + [(c,) for c in cls]
    while todo:
        k = todo.pop()
        if k in seen: continue
        if isinstance(k, tuple):
            seen.add(k)
            k, text = 'cl::' + k[0], '\n'.join(client_text(src, k[0]))
            todo += [(c,) for c in re.findall(r'\b(p_[a-z0-9_]+)\(', text)]
        else: seen.add(k); text = text_of(k)
        text = re.sub(r'\bfn\s+\w+', '', text)
        m = mentioned(k, text)
        for pre, n in set(re.findall(r'(?:(\w+|\.)\s*(?:::\s*)?)?\b([a-z_]\w*)\s*(?:::\s*<[^(]*>)?\s*\(', text)):
            cs = by.get(n, [])
            if pre[:1].isupper() and pre != 'Self': cs = [c for c in cs if typ(c) == pre]
            elif pre == 'Self': cs = [c for c in cs if typ(c) == typ(k)]
            else: cs = [c for c in cs if typ(c) in m or not typ(c)[:1].isupper() or typ(c) == 'Graph']
            if n.endswith('try_from'): cs = [c for c in cs if converts(c, text)] or cs
            todo += [c for c in cs if c not in seen]
    return {k for k in seen if not isinstance(k, tuple)}

def converts(k, text):
    """whether the conversion k can be meant in a text: the type it converts from is mentioned there"""
    m = re.search(r'TryFrom<(.*)>for', k)
    if not m: return True
    t = m.group(1)
    return bool(re.search(r'\b%s\b' % t.split('<')[0], text)) if not t.startswith('Vec<') else t in re.sub(r'\s', '', text.split('ensures')[0])

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    ex, vxh = build()
    prim = json.load(open(os.path.join(V, 'contracts/props.json')))[prop]
    tmp = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=BUILD)
    try: sys.exit(decide(prop, tier, seed, ex, vxh, prim, tmp))
    finally: shutil.rmtree(tmp, ignore_errors=True)

def search(vxh, prop, seed, secs, jobs, d):
    env = dict(os.environ, VXH_LITERALS=','.join(map(str, literals())))
    p = sh([vxh, 'search', prop, str(seed), str(secs), str(jobs), d], env=env)
    try: return json.loads(p.stdout.strip().split('\n')[-1])
    except Exception: return {'evaluations': 0, 'distinct_nontrivial': 0, 'fail': None, 'error': (p.stdout + p.stderr)[-400:], 'samples': [], 'rule': ''}

def trusted(tmp_rs_lines, meta):
    out = []
    for i, l in enumerate(tmp_rs_lines):
        m = re.search(r'\b(assume|admit)\s*\(|assume_specification|#\[verifier::external\b|#\[verifier::external_body\]|#\[verifier::external_fn|\baxiom\b', l)
        if m and not l.strip().startswith('//'):
            for j in range(i, min(i + 8, len(tmp_rs_lines))):
                n = re.search(r'\b(?:fn|struct|impl)\b[^{;]*', tmp_rs_lines[j])
                if n: out.append((m.group(0).strip('#[]'), n.group(0).strip()[:110], i + 1)); break
            else: out.append((m.group(0), '', i + 1))
    return out

def decide(prop, tier, seed, ex, vxh, prim, tmp):
    quick = tier != 'thorough'
    res = {}
    th = threading.Thread(target=lambda: res.update(search(vxh, prop, seed, 5 if quick else 240, 4, os.path.join(tmp, 's'))))
    th.start()
    v = Verus(ex, tmp, 4)
    undecided, failed, other, out, probe_bad = [], {}, [], None, []
    clos = mine = set()
    units, smt_ms, retried = [], 0, []
    lostc, pr, tw, tt = [], {}, {}, None
    if v.note: undecided.append(v.note)
    else:
        keys = {f['key']: f for f in v.meta['functions']}
        gone = [k for k in prim if k not in keys]
        if gone: undecided.append('functions not found: ' + ', '.join(gone))
        clos = closure(v.meta, v.src, prim, clients(v.src, prop))
        pt = threading.Thread(target=lambda: pr.update(probe(ex, v, tmp)))
        pt.start()
        tt = threading.Thread(target=lambda: tw.update(twin(v, tmp, seed, 2 if quick else 60)))
        tt.start()
        failed, other, out = v.run()
        while out is None and set(failed) - set(v.skip) and len(v.skip) < 8:
            # a body (or its hints) the verifier does not take: keep the function's contract only, so that what does not rest on it is still decided
            v.skip += sorted(set(failed) - set(v.skip))
            v.extract()
            failed, other, out = v.run()
        if v.skip:
            pt.join()
            pr.clear()
            pr.update(probe(ex, v, tmp))
            if set(v.skip) & clos: undecided.append('the verifier does not take the present form of: ' + ', '.join(sorted(set(v.skip) & clos)))
        if out is None and v.without_clients():
            # perhaps only the clients do not fit: decide on the contracts alone
            why = '; '.join(m for _, m in other)[-300:]
            failed, other, out = v.run()
            if out is not None: undecided.append('the property clients do not fit this source: ' + why)
        pt.join()
        lem = lemmas_used(v.meta, v.src, clos, clients(v.src, prop))
        theirs = lambda o: [x for x in o if x[0] is None or x[0] in lem]
        for k, opts in ((1, ['--smt-option', 'smt.random_seed=11', '--rlimit', '40']), (2, ['--smt-option', 'smt.random_seed=5', '--rlimit', '60'])):
            bad = [f for f in failed if f in clos]
            if out is None or not bad and not theirs(other): break
            f2, o2, out2 = v.run(opts)
            if out2 is not None:
                retried.append(k)
                failed = {f: m for f, m in failed.items() if f in f2}
                other = [x for x in other if x[0] is None or x[0] in [y[0] for y in o2]]
                if not [f for f in failed if f in clos] and not theirs(other): out = merge(out, out2)
        other = [m for _, m in theirs(other)]
        if out is None: undecided.append('; '.join(other)[-600:] or 'no result from the verifier')
        else:
            if other: undecided.append('support lemmas not accepted: ' + '; '.join(other)[:600])
            units, smt_ms = breakdown(out)
        mine = clos | {'cl::' + c for c in clients(v.src, prop)}
        probe_bad = [k for k in pr.get('accepted', []) if k in mine]
        if pr.get('error'): undecided.append('vacuity probe: ' + pr['error'])
        if probe_bad: undecided.append('contradictory precondition: ' + ', '.join(probe_bad))
        lostc = [x for x in v.meta['lost_functions'] + v.meta['lost_anchors']]
        unc = [k for k in clos if not keys[k]['contract'] and not keys[k].get('trait_impl')]
        if unc: undecided.append('functions without contract: ' + ', '.join(sorted(unc)))
        assumed = [t for t in trusted(v.src, v.meta) if t[2] > v.meta['shim_lines'][1] and v.fn_at(t[2] + 1) not in v.skip and v.fn_at(t[2]) not in v.skip]
        if assumed: undecided.append('assumption in extracted code: %s' % assumed[:3])
    th.join()
    if tt: tt.join()
    if tw.get('differs'): undecided.append('the extracted text does not behave as the crate: ' + tw['differs'])
    # ---------------- verdict
    bad = {k: m for k, m in failed.items() if k in clos}
    # a postcondition that states another property says nothing about this one (it still keeps the proof from counting)
    badp = {k: m for k, m in ((k, [x for x in m if not states_other(prop, x)]) for k, m in bad.items() if k in prim) if m}
    replay = None
    violation = None
    if res.get('fail') is None and (bad or undecided) :
        # no proof: look longer for a failing input
        r2 = search(vxh, prop, seed + 1000, 30 if quick else 300, 8, os.path.join(tmp, 's'))
        for k in ('evaluations', 'distinct_nontrivial'): r2[k] = r2.get(k, 0) + res.get(k, 0)
        r2['samples'] = (res.get('samples') or []) + (r2.get('samples') or [])
        res = r2
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    if res.get('fail'):
        replay = os.path.join(BUILD, 'replay', '%s.case' % prop)
        case = open(os.path.join(tmp, 's', 'failing')).read()
        with open(replay, 'w') as f:
            f.write('# %s\n# replay on the real crate: %s run %s\n' % (res['fail'], vxh, replay))
            for k, ms in bad.items():
                for m in ms: f.write('# failed obligation in %s: %s\n' % (k, m.replace('\n', '\n#')))
            f.write(case)
        violation = 'VIOLATION property=%s replay=%s' % (prop, replay)
    elif badp and not undecided:
        same = shape_same(v, badp)
        hard = {k: m for k, m in badp.items() if not all(any(u in x for u in VERUS_ERRS_UNDECIDED) for x in m)}
        if hard and same:
            replay = os.path.join(BUILD, 'replay', '%s.obligations' % prop)
            with open(replay, 'w') as f:
                f.write('Obligations of %s that the verifier accepted on the reviewed source and rejects now.\nNo failing input was found by the search (%d inputs).\n\n' % (prop, res.get('evaluations', 0)))
                for k, ms in hard.items():
                    for m in ms: f.write('%s: %s\n' % (k, m))
            violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)
        else: undecided.append('obligations not discharged, structure changed or limit reached: ' + ', '.join(badp))
    elif bad: undecided.append('obligations not discharged in: ' + ', '.join(sorted(bad)))
    proved = not violation and not undecided and not bad and out is not None and bool(clos)
    # ---------------- evidence
    cls = clients(v.src, prop) if v.meta else []
    lem = lemmas_used(v.meta, v.src, clos, cls) if v.meta else set()
    rel = [u for u in units if unit_in(u, clos, lem)]
    smt_ms = sum(u.get('time', 0) for u in rel)
    ob, di = len(rel), len([u for u in rel if u['success']])
    if proved and ob == 0: proved = False; undecided.append('no obligations generated')
    backed, bare = references()
    refs = [u for u in units if '::rf::' in '::' + u['function']]
    cov = {
        'obligations': ob, 'discharged': di,
        'checker_cmd': 'verus gamma_vx.rs (back end z3, as shipped with verus), file extracted from /repo/src by extract/ with contracts/*.vc',
        'trusted_base': TRUSTED + ['%d std method contracts assumed in contracts/00_vx.rs' % (len(backed) + len(bare))],
        'std_contracts': {'assumed': len(backed) + len(bare), 'same_clauses_as_a_reference_in_05_rf.rs': len(backed), 'without_reference': bare,
                          'reference_units': len(refs), 'reference_units_discharged': len([u for u in refs if u['success']])},
        'functions_under_contract': sorted(k for k in clos) if v.meta else [],
        'property_clients': cls,
        'units': [{'unit': u['function'], 'ms': u['time'], 'ok': u['success']} for u in rel][:200],
        'solver_ms': smt_ms, 'retried_with_other_seeds': retried,
        'vacuity_probe': {'functions_probed': len([k for k in pr.get('probed', []) if k in mine]), 'contradictory': probe_bad},
        'extraction_compared_with_crate': tw,
        'evaluations': res.get('evaluations', 0), 'distinct_nontrivial': res.get('distinct_nontrivial', 0),
        'rule': res.get('rule', ''), 'samples': (res.get('samples') or [])[:4], 'small_graphs_enumerated': res.get('small_graphs', 0),
        'not_proved_because': undecided + ['%s: %s' % (k, m[0].split('\n')[0]) for k, m in bad.items()],
        'lost_proof_hints': lostc[:20], 'functions_not_taken_by_the_verifier': v.skip if v.meta else [],
    }
    ev = {'property': prop, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': 'proof' if proved else 'exploration', 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - T0, 2), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    # ---------------- report
    for k, ms in bad.items():
        for m in ms[:2] if violation else ms[:1]: print('obligation not discharged in %s: %s' % (k, m if violation else m.split('\n')[0]))
    if violation:
        if res.get('fail'): print('failing input: %s' % res['fail'])
        print(violation)
        return 1
    if proved: print('PROVED %s: %d obligation units discharged over %d functions (%d ms solver); %d inputs replayed without a failure' % (prop, di, len(clos), smt_ms, cov['evaluations']))
    else:
        for u in undecided: print('not proved: ' + u)
        print('BOUNDED %s: the proof does not apply to this source; %d inputs (%d distinct, non-trivial) replayed without a failure' % (prop, cov['evaluations'], cov['distinct_nontrivial']))
    return 0

def merge(a, b):
    """a's result with the units only b's run accepted marked as accepted"""
    ok = {u['function'] for u in breakdown(b)[0] if u['success']}
    for u in breakdown(a)[0]:
        if u['function'] in ok: u['success'] = True
    return a

OTHERS = {'M03': ('maximal(',), 'M04': ('r.inv()', 'is_matching('), 'M05': ('maximum(',)}
def states_other(prop, msg):
    """whether a failed obligation is a postcondition that states another property of the same function"""
    return any(msg.startswith('postcondition not satisfied: ' + c) for c in OTHERS.get(prop, ()))

def clients(src, prop):
    """the functions of module cl that state this property"""
    return [m.group(1) for m in map(FN.match, src) if m and m.group(1).startswith('p_') and prop.lower() in m.group(1).split('_')]

def breakdown(out):
    units = []
    ms = 0
    for m in out.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            units.append(f); ms += f.get('time', 0)
    return units, ms

def lemmas_used(meta, src, clos, roots=()):
    """proof functions of the support modules that the functions in clos rest on, by name"""
    a, b = meta['shim_lines']
    body, name, mod = {}, None, ''
    for l in src[a - 1:b]:
        m = re.match(r'pub mod (\w+) \{', l)
        if m: mod = m.group(1)
        if mod == 'rf': name = None; continue
        m = re.match(r'\s*(?:pub )?(?:broadcast )?(?:open spec |closed spec |spec |proof |exec )?fn (\w+)', l)
        if m: name = m.group(1); body[name] = [mod, '']
        if name: body[name][1] += l + '\n'
    fs = {f['key']: f for f in meta['functions']}
    words = lambda t: set(re.findall(r'\b[a-z_]\w*\b', t))
    todo = set(roots)
    for k in clos: todo |= words('\n'.join(src[fs[k]['begin'] - 1:fs[k]['end'] - 1]))
    seen, todo = set(), [w for w in todo if w in body]
    while todo:
        w = todo.pop()
        if w in seen: continue
        seen.add(w)
        todo += [x for x in words(body[w][1]) if x in body and x not in seen]
    return {body[w][0] + '::' + w for w in seen} | {w for w in seen}

def unit_in(u, clos, lem):
    n = u['function']
    n = n.split('::', 1)[1] if '::' in n else n
    last = n.split('::')[-1]
    if n.split('::')[0] in ('th', 'mt', 'mm', 'tr', 'bf', 'sl', 'gr', 'bl', 'se', 'cl', 'vx'): return last in lem
    mod = '::'.join(n.split('::')[:2])
    return any(k.startswith(mod) and (k.split('::')[-1] == last or last == 'vx_' + k.split('::')[-1]) for k in clos)

def probe(ex, v, tmp):
    rs, js = os.path.join(tmp, 'probe.rs'), os.path.join(tmp, 'probe.json')
    p = sh(v.cmd(rs, js) + ['--probe'])
    if p.returncode: return {'error': 'extraction failed'}
    meta = json.load(open(js))
    src = open(rs).read().split('\n')
    cls = []
    for i, l in enumerate(src):
        m = re.match(r'pub fn (p_\w+)', l)
        if m:
            b = next(j for j in range(i, len(src)) if src[j].startswith('{'))
            src[b] += ' assert(false);'
            cls.append({'key': 'cl::' + m.group(1), 'begin': i + 1, 'end': b + 2})
    open(rs, 'w').write('\n'.join(src))
    try: q = sh(['verus', rs, '--triggers-mode', 'silent', '--error-format=json', '--output-json', '--multiple-errors', '1', '--num-threads', '2', '--rlimit', '3'], timeout=240, cwd=tmp)
    except subprocess.TimeoutExpired: return {}
    hit = set()
    try:
        if json.loads(q.stdout)['verification-results'].get('encountered-vir-error'): return {}   # the main run says so too
    except Exception: return {}
    for l in q.stderr.split('\n'):
        if l.startswith('{'):
            d = json.loads(l)
            if d['level'] != 'error': continue
            if d.get('code'): return {}   # does not compile; the main run says so too
            for s in d['spans']:
                for f in meta['functions'] + cls:
                    if f['begin'] <= s['line_start'] < f['end']: hit.add(f['key'])
    if not hit: return {}
    probed = [c['key'] for c in cls] + [f['key'] for f in meta['functions'] if f['contract'] and not f['external'] and any('assert(false)' in l for l in src[f['begin'] - 1:f['end'] - 1])]
    return {'probed': probed, 'accepted': [k for k in probed if k not in hit]}

def twin(v, tmp, seed, secs):
    """compiles the extracted text (ghost code erased) and runs it beside the crate on the same inputs"""
    d = os.path.join(tmp, 'twin')
    os.makedirs(d)
    try:
        tc = re.search(r'Toolchain: (\S+)', sh(['verus', '--version']).stdout).group(1)
        vd = os.path.dirname(os.path.realpath(shutil.which('verus')))
        steps = [['verus', '--compile', '--no-verify', '--triggers-mode', 'silent', '--crate-type=lib', '--crate-name', 'gamma_vx', '-o', 'libgamma_vx.rlib', v.rs],
                 ['rustup', 'run', tc, 'rustc', '-O', '-C', 'debug-assertions=on', '-C', 'overflow-checks=on', '--edition', '2018', '--cap-lints', 'allow', '--crate-type', 'rlib', '--crate-name', 'gamma', os.path.join(REPO, 'src/lib.rs'), '-o', 'libgamma.rlib'],
                 ['rustup', 'run', tc, 'rustc', '-O', '--edition', '2021', '--cap-lints', 'allow', os.path.join(V, 'twin/twin.rs'), '--extern', 'gamma=libgamma.rlib', '--extern', 'gamma_vx=libgamma_vx.rlib', '-L', vd, '-o', 'twin']]
        for s in steps:
            p = sh(s, cwd=d, timeout=200)
            if p.returncode: return {'not_compared': 'does not build: ' + (p.stderr or p.stdout)[-300:]}
        p = sh(['bash', '-c', 'ulimit -v 8388608; exec ./twin %d %d' % (seed, secs)], cwd=d, timeout=secs + 60)
    except subprocess.TimeoutExpired: return {'not_compared': 'time ran out'}
    except Exception as e: return {'not_compared': repr(e)[-300:]}
    if p.stdout.startswith('agreed'): return {'inputs_agreeing': int(p.stdout.split()[1]), 'std_contract_evaluations': int(p.stdout.split()[2])}
    if p.stdout.startswith('DIFFER'): return {'differs': p.stdout[:1500]}
    return {'not_compared': 'the run ended early (%d)' % p.returncode}

def shape_same(v, badp):
    if not os.path.exists(v.base): return False
    b = {f['key']: f for f in json.load(open(v.base))['functions']}
    n = {f['key']: f for f in v.meta['functions']}
    if set(b) != set(n): return False
    lost = v.meta['lost_anchors']
    for k in badp:
        if k not in b or any(b[k].get(x) != n[k].get(x) for x in ('loops', 'kinds', 'closures', 'sig')): return False
        if any(k in str(l) for l in lost): return False
    return True

TRUSTED = ['Verus 0.2026.09.13 and its z3', 'vstd specifications of Vec, VecDeque, HashMap, HashSet, Option, Result',
           'the extraction rules in extract/ (iterator boxes, for loops and std method names rewritten; derives, docs and tests dropped)',
           'std iterator and slice method contracts in contracts/00_vx.rs, evaluated on concrete data by twin/shims.rs']
ASSUME = ['Graph implementations other than DefaultGraph are lawful: their queries describe one simple undirected graph and do not change while borrowed',
          'iterators returned by a graph yield finitely many items and stay exhausted',
          'allocation succeeds; no collection exceeds isize::MAX bytes; the call stack suffices for the recursion',
          'usize keys hash and compare as vstd assumes']

if __name__ == '__main__': main()
