#!/usr/bin/env python3
# seed.py SPEC.py: turns a planted-bug description (id, property, edits, needs, breaks, demo) into /verif/seeded/<id>/
# and confirms it: builds, keeps the stable tests passing, demo passes without and fails with it
import sys, os, json, subprocess, shutil, tempfile
SEEDED = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# builds demo.rs against the tree in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)" || exit 2
trap 'find "$t" -delete' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" || exit 2
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\nrustdct = { path = "%s" }\\n[workspace]\\n[profile.dev]\\nopt-level = 1\\n' "$repo" > "$t/Cargo.toml"
CARGO_TARGET_DIR="$t/target" cargo run --offline --quiet --manifest-path "$t/Cargo.toml"
'''
PRE = '''#![allow(unused)]
use rustdct::algorithm::*;
use rustdct::algorithm::type2and3_butterflies::*;
use rustdct::mdct::*;
use rustdct::rustfft::{num_complex::Complex, Fft, FftDirection, FftPlanner, Length};
use rustdct::*;
use std::f64::consts::PI;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
fn sig(n: usize) -> Vec<f64> { (0..n).map(|i| ((i * 37 + 11) % 29) as f64 / 7.0 - 2.0).collect() }
fn close(a: &[f64], b: &[f64], tol: f64) { assert_eq!(a.len(), b.len()); for i in 0..a.len() { assert!((a[i] - b[i]).abs() <= tol, "element {}: {} instead of {}", i, a[i], b[i]); } }
'''
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for b in ns['BUGS']: one(b)
def one(b):
    d = os.path.join(SEEDED, b['id'])
    t = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    r = os.path.join(t, 'repo')
    try:
        sh('cp -a /repo %s' % r, '/')
        dd = os.path.join(t, 'demo'); os.makedirs(dd)
        open(os.path.join(dd, 'demo.rs'), 'w').write(PRE + b['demo'])
        open(os.path.join(dd, 'demo.sh'), 'w').write(DEMO_SH.replace('opt-level = 1', 'opt-level = 1\\ndebug-assertions = false') if b.get('shipped') else DEMO_SH); os.chmod(os.path.join(dd, 'demo.sh'), 0o755)
        x = sh(os.path.join(dd, 'demo.sh'), r)
        if x.returncode: return print(b['id'], 'REJECTED demo fails on the unchanged tree\n', x.stdout[-500:], x.stderr[-1500:])
        for f, old, new in b['edits']:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) < 1: return print(b['id'], 'REJECTED no such text in', f, repr(old[:80]))
            if s.count(old) > 1 and not b.get('all'): return print(b['id'], 'REJECTED text not unique in', f, repr(old[:80]))
            open(p, 'w').write(s.replace(old, new))
        x = sh('cargo test --workspace --offline 2>&1', r, timeout=900)
        if x.returncode: return print(b['id'], 'REJECTED tests fail\n', x.stdout[-1500:])
        x = sh(os.path.join(dd, 'demo.sh'), r)
        if x.returncode == 0: return print(b['id'], 'REJECTED demo passes with the change')
        if 'panicked' not in x.stderr + x.stdout and not b.get('nopanic'): return print(b['id'], 'REJECTED demo does not fail by assertion', x.stderr[-800:])
        diff = sh('git diff -- src', r).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        for n in ('demo.rs', 'demo.sh'): shutil.copy(os.path.join(dd, n), os.path.join(d, n))
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(b['id'], 'kept:', [l for l in (x.stderr + x.stdout).split('\n') if 'panicked' in l or 'element' in l][:3])
    finally:
        shutil.rmtree(t, ignore_errors=True)
if __name__ == '__main__': main()
