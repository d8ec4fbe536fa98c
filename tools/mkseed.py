#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy of /repo: builds, passes the stable tests,
demo passes on the unchanged tree and fails with the change.  usage: mkseed.py SPEC.py [id...]"""
import sys, os, subprocess, json, shutil
SP = {}
exec(open(sys.argv[1]).read(), {'seed': lambda id, **k: SP.__setitem__(id, k)})
ids = sys.argv[2:] or list(SP)
W = '/tmp/sd/repo'
DEMO = '''#!/bin/bash
# run in the repository; builds the library into a scratch directory and runs the demonstration against it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
rustc -O --edition 2018 --cap-lints allow --crate-type rlib --crate-name gamma src/lib.rs -o "$t/libgamma.rlib" || exit 3
rustc -O --edition 2018 --cap-lints allow "$here/demo.rs" --extern gamma="$t/libgamma.rlib" -o "$t/demo" || exit 3
ulimit -v 4194304
timeout 60 "$t/demo"
'''
HEAD = '''#![allow(unused_imports)]
use std::convert::TryFrom;
use std::collections::*;
use gamma::graph::{DefaultGraph, Error, Graph};
use gamma::traversal::{BreadthFirst, DepthFirst, Step};
use gamma::selection::components;
use gamma::matching::{greedy, maximum_matching, Pairing};
'''
def sh(c, cwd=W): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
base = set(json.load(open('/opt/vp/BASELINE.json')) if isinstance(json.load(open('/opt/vp/BASELINE.json')), list) else json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
for i in ids:
    s = SP[i]
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True, ignore=shutil.ignore_patterns('target'))
    sh('git checkout -- .')
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.rs', 'w').write(HEAD + s['demo'].strip() + '\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d)
    for f, a, b in s['edits']:
        p = W + '/src/' + f
        t = open(p).read()
        k = s.get('nth', 0)
        assert t.count(a) >= 1, (i, f, a)
        t = t.replace(a, b, 1)
        open(p, 'w').write(t)
    diff = sh('git diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    bl = sh('CARGO_TARGET_DIR=/tmp/sd/t cargo build --offline 2>&1')
    t = sh('CARGO_TARGET_DIR=/tmp/sd/t cargo test --offline --no-fail-fast 2>&1')
    fails = [l for l in t.stdout.split('\n') if l.endswith('FAILED') or 'error[' in l or 'panicked' in l][:6]
    r1 = sh('bash %s/demo.sh' % d)
    ok = r0.returncode == 0 and r1.returncode == 1 or r1.returncode == 101 or r1.returncode == 124
    print(i, 'OK' if bl.returncode == 0 and t.returncode == 0 and r0.returncode == 0 and r1.returncode not in (0, 3) else 'BAD', 'build', bl.returncode, 'test', t.returncode, 'demo', r0.returncode, r1.returncode, r1.stderr.strip().split('\n')[-2:] , fails)
shutil.rmtree(W, ignore_errors=True)
