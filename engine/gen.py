#!/usr/bin/env python3
"""Regenerates harness/src/lib.rs and the feature list of harness/Cargo.toml from the modules."""
import os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness')
mods = sorted(f[:-3] for f in os.listdir(H + '/src') if re.fullmatch(r'c\d+\.rs', f))
out = '''//! Harnesses: one module per property.  The same sources are model checked with Kani
//! (`cfg(kani)`) and replayed natively on the tape of a counterexample (`src/bin/replay.rs`).
//! Generated by gen.py.
#![cfg_attr(kani, feature(allocator_api))]
#![allow(static_mut_refs, dead_code, unused_imports, unused_macros)]

#[cfg(kani)]
extern crate alloc;

#[macro_use]
pub mod common;
pub mod f7;
#[cfg(any(feature = "c16", feature = "c17", not(kani)))]
pub mod attract;

'''
for m in mods:
    out += '#[cfg(any(feature = "%s", not(kani)))]\npub mod %s;\n' % (m, m)
out += '''
#[cfg(not(kani))]
pub fn registry() -> Vec<(String, fn())> {
    let mut r = Vec::new();
'''
for m in mods:
    out += '    r.extend(%s::ALL.iter().map(|(n, f)| (format!("%s::{}", n), *f)));\n' % (m, m)
out += '    r\n}\n'
open(H + '/src/lib.rs', 'w').write(out)
p = H + '/Cargo.toml'
s = open(p).read()
s = re.sub(r'\[features\]\n.*?\n\n', '[features]\ndefault = []\n' + ''.join('%s = []\n' % m for m in mods) + '\n', s, flags=re.S)
open(p, 'w').write(s)
