#!/bin/bash
# regenerates harness/src/props/mod.rs from the cNN.rs files
cd "$(dirname "$0")/../harness/src/props" || exit 1
python3 - <<'P'
import glob,re
ids=sorted(f[:-3] for f in glob.glob('c[0-9][0-9].rs'))
helpers=sorted(f[:-3] for f in glob.glob('*.rs') if not re.match(r'c\d\d\.rs|mod\.rs',f))
s='use crate::engine::Facet;\n\n'+''.join(f'mod {i};\n' for i in ids+helpers)
s+='\npub const ALL: &[&str] = &['+', '.join(f'"{i.upper()}"' for i in ids)+'];\n\n'
s+='pub fn facets(prop: &str) -> Option<Vec<Facet>> {\n    Some(match prop {\n'+''.join(f'        "{i.upper()}" => {i}::facets(),\n' for i in ids)+'        _ => return None,\n    })\n}\n'
s+='''
pub fn assumptions(_prop: &str) -> Vec<String> {
    vec![
        "std::time::Instant and thread::sleep reach the C library's clock_gettime/nanosleep/clock_nanosleep, which the harness replaces".into(),
        "crossbeam-channel, exponential-decay-histogram, futures, json and the Rust standard library behave as documented".into(),
    ]
}
'''
open('mod.rs','w').write(s)
P
